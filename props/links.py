"""loop invariants about linked arrays: some arrays are arbitrary within stated facts, the others are determined by them.
The invariant is about the arrays only (never about local variables), and is used at every loop that has no closed form and
changes one of them, in whatever function that loop is."""

from values import INTD


class Linked:
    def __init__(self, v, free, derived, tokens=None, width=None, spot=None):
        """free: [(array, facts(idx, value) -> [formula], sums [(name, sum of last index for idx[:-1], guard(idx[:-1]))])]
        derived: [(name, array, fn(skip) -> (*idx) -> value, own(token) -> (*idx) -> value, whether contributions are non-negative)], the functions read the free
        arrays as they are now; fn((d, n)) leaves the token (d, n) out, own((d, n)) is what the token contributes.
        tokens: lengths of the rows of tokens, at most width; in the body of a loop over the tokens of a row, each derived array is the
        sum over the other tokens (an arbitrary name, for which only non-negativity is used) plus the token's contribution.
        spot: an array; where the body first reads it (at some e, with nothing changed since the head), each derived array is split likewise into
        the sum over what is not e and e's contribution. A derived entry may then end with
        (most, cap): the sum over what is not e is at most most(e)(*idx), the sum of cap(n)(*idx) over them (for a spot with one axis)"""
        self.spot = spot
        self.v, self.free, self.derived, self.tokens, self.width = v, free, derived, tokens, width
        self.rest, self.names = {}, set()

    def arrays(self):
        return [a for a, *_ in self.free] + [a for _, a, *_ in self.derived]

    def covered(self, loop):
        bufs = {id(a.buf) for a, *_ in self.free} | {id(a.buf) for _, a, *_ in self.derived}
        return {k: "linked" for k, c in loop.cells.items() if c.cell[0] == "buf" and id(c.cell[1]) in bufs}

    def check(self, loop, msg):
        v = self.v
        for a, facts, sums in self.free:
            nm = a.buf.name
            v.forall("%s: %s within its bounds" % (msg, nm), list(a.shape_), lambda *i, a=a, facts=facts: v.And(*facts(i, rd(a, i))))
            for what, total, guard in sums:
                v.forall("%s: %s" % (msg, what), list(a.shape_[:-1]),
                         lambda *i, a=a: v.Implies(guard(i), v.eq(v.sum(a.shape_[-1], lambda k: rd(a, i + (k,))), total)))
        for name, a, fn, own, signed, *_ in self.derived:
            v.forall("%s: %s" % (msg, name), list(a.shape_), lambda *i, a=a, fn=fn: v.eq(self.unfold(rd(a, i)), fn(None)(*i)))

    def unfold(self, p):
        """the names for sums over the other tokens, replaced by those sums where they stand alone"""
        from smt import simp
        import terms as T
        out = T.ZERO
        for m, c in simp(p, self.v.E.ctx).terms:
            l = [(a, e) for a, e in m if a.kind == "sel" and a.args[0] in self.rest]
            if len(l) == 1 and l[0][1] == 1 and all(a.kind in ("ind", "ite") for a, e in m if a is not l[0][0]):
                a = l[0][0]
                out = out + T._mk_poly({tuple(x for x in m if x[0] is not a): c}) * self.rest[a.args[0]](a.args[1])
            else:
                out = out + T._mk_poly({m: c})
        return out

    def havoc(self, loop):
        from values import formals, INTD
        from smt import declare_array, simp
        from terms import P, And, Implies, ZERO, sel
        import terms as T
        E = self.v.E
        for a, facts, sums in self.free:
            nm = E.site_name("hv")
            self.names.add(nm)
            dims = a.shape_
            sort = "I" if a.dtype in INTD else "R"

            def fx(idx, a=a, facts=facts, nm=nm, sort=sort):
                i = tuple(idx[-len(a.shape_):])
                rng = T.And(*[T.And(T.P(0) <= q, q < d) for q, d in zip(i, a.shape_)])
                return [T.Implies(rng, T.B(f)) for f in facts(i, T.sel(nm, idx, sort))]

            def rule(x, args, slo, shi, ctx, sums=sums, dims=dims):
                i = tuple(args[-len(dims):])
                if i[-1].as_atom() is x and all(x not in q.deep for q in args[:-1]) and slo is T.ZERO and simp(shi - dims[-1], ctx) is T.ZERO:
                    for what, total, guard in sums:
                        if all(ctx.entails(T.And(T.P(0) <= q, q < d)) for q, d in zip(i[:-1], dims)) and ctx.entails(T.B(guard(i[:-1]))):
                            return T.P(total)
                return None
            declare_array(nm, sort, fx, sumrule=rule if sums else None)
            E.setcell(("buf", a.buf, None), T.sel(nm, [T.P(q) for q in E.loopvars] + formals(len(a.buf.dims)), sort))
        tok = None
        if self.tokens is not None and len(E.loopvars) > 1 and P(E.loopvars[-1]).as_atom() is loop.x:
            d, n = [P(q) for q in E.loopvars[-2:]]
            if loop.hi is not None and E.ctx.entails(And(P(0) <= d, d < P(self.tokens.shape_[0]))) and simp(loop.hi - P(self.tokens[d]), E.ctx) is ZERO:
                tok = (d, n)
        lv = [P(q) for q in E.loopvars]
        for name, a, fn, own, signed, *_ in self.derived:
            r = len(a.buf.dims)
            if tok is None:
                E.setcell(("buf", a.buf, None), P(fn(None)(*formals(r))))
                continue
            snap = [(b, b.buf.body) for b, *_ in self.free]
            nm = E.site_name("rest")
            if not E.trial:
                self.v.forall("%s: without the token itself plus the token" % name, list(a.shape_),
                              lambda *i, fn=fn, own=own: self.v.eq(fn(None)(*i), fn(tok)(*i) + own(tok)(*i)))
            if signed and not E.trial:
                self.v.forall("%s: what each other token contributes is non-negative" % name, list(a.shape_) + [self.tokens.shape_[0], self.width],
                              lambda *i, own=own: self.v.Implies(i[-1] < self.tokens[i[-2]],
                                                                 self.v.nonneg(own(i[-2:])(*i[:-2]) * (1 - self.v.ind(self.v.eq(i[-2], tok[0])) * self.v.ind(self.v.eq(i[-1], tok[1]))))))

            def defn(args, fn=fn, snap=snap, tok=tok, k=len(lv), lv=lv):
                was = [(b, b.buf.body) for b, _ in snap]
                try:
                    for b, body in snap:
                        b.buf.body = body
                    return P(fn(tok)(*args[k:]))
                finally:
                    for b, body in was:
                        b.buf.body = body
            self.rest[nm] = defn
            # (a sum of non-negative terms is not negative)
            declare_array(nm, "R", lambda idx, nm=nm, signed=signed: [sel(nm, idx, "R") >= ZERO] if signed else [])
            E.setcell(("buf", a.buf, None), sel(nm, lv + formals(r), "R") + P(own(tok)(*formals(r))))
        if self.spot is not None:
            was = [(a, a.buf.body) for a in self.arrays()]
            E.watch[id(self.spot.buf)] = lambda e: self.split(e, was)
        return []

    def split(self, e, was):
        """nothing has changed since the loop's head, and entry e is about to be read: the other entries are set apart"""
        from values import formals, apply_body
        from smt import declare_array, simp
        from terms import P, ZERO, sel
        v, E = self.v, self.v.E
        if any(a.buf.body is not b for a, b in was):
            return
        E.watch = {}
        lv = [P(q) for q in E.loopvars]
        e = e[0] if len(e) == 1 else tuple(e)
        free = [(a, a.buf.body) for a, *_ in self.free]
        new = []
        for name, a, fn, own, signed, *more in self.derived:
            nm = E.site_name("rest")
            most, cap = more[0] if more else (None, None)
            r = len(a.buf.dims)
            lim = simp(P(most(e)(*formals(r))), E.ctx) if most else None
            if not E.trial:
                v.forall("%s: the others and the entry itself" % name, list(a.shape_), lambda *i: v.eq(fn(None)(*i), fn(e)(*i) + own(e)(*i)))
                if signed:
                    v.forall("%s: what each of the others contributes is non-negative" % name, list(a.shape_) + list(self.spot.shape_),
                             lambda *i, r=len(a.shape_): v.nonneg(own(i[r] if len(i) == r + 1 else i[r:])(*i[:r])))
                if most:
                    v.forall("%s: the limit of what the others contribute" % name, list(a.shape_),
                             lambda *i: v.eq(most(e)(*i), v.sum(self.spot.shape_[0], lambda n: cap(n)(*i) * (1 - v.ind(v.eq(n, e))))))
                    v.forall("%s: what each of the others contributes is limited" % name, list(a.shape_) + list(self.spot.shape_),
                             lambda *i, r=len(a.shape_): v.nonneg(cap(i[r])(*i[:r]) - own(i[r])(*i[:r])))

            def defn(args, fn=fn, k=len(lv)):
                now = [(b, b.buf.body) for b, _ in free]
                try:
                    for b, body in free:
                        b.buf.body = body
                    return P(fn(e)(*args[k:]))
                finally:
                    for b, body in now:
                        b.buf.body = body
            self.rest[nm] = defn
            sort = "I" if a.dtype in INTD else "R"

            def facts(idx, nm=nm, sort=sort, signed=signed, lim=lim, k=len(lv)):
                x = sel(nm, idx, sort)
                return ([x >= ZERO] if signed else []) + ([x <= apply_body(lim, idx[k:])] if lim is not None else [])
            declare_array(nm, sort, facts)
            new.append((a, sel(nm, lv + formals(len(a.buf.dims)), sort) + P(own(e)(*formals(len(a.buf.dims))))))
        for a, b in new:
            E.setcell(("buf", a.buf, None), b)


def rd(a, i):
    """the array's element as it is now"""
    import terms as T
    from values import formal_atoms
    b = a.buf.body
    return T.P(T.subst(b, {f: T.P(q) for f, q in zip(formal_atoms(8), i)}))


class Now:
    """reads an array as it is at the moment of reading"""
    def __init__(self, a):
        self.a = a

    def __getitem__(self, i):
        return rd(self.a, i if isinstance(i, tuple) else (i,))
