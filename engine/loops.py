"""Loops: closed-form invariants found by a trial run of the body, verified inductively; supplied or
machine-found invariants with havoc for the rest."""
import ast
import sys
import types
from values import *
from interp import (Eng, Frame, SRange, SEnum, _MISSING, MergeFail, PathInfeasible, InterpRaise, DBG)
from smt import solve_for, all_atoms, simp, simp_f, prove_zero, prove, Ctx, array_offset


class NotSummarisable(Unsupported):
    pass


# ------------------------------------------------------------------ iteration sources
def iter_source(E, it):
    """-> ('concrete', list) | ('sym', lo, hi, elem(x)) """
    if isinstance(it, SRange):
        lo, hi = simp(it.lo, E.ctx), simp(it.hi, E.ctx)
        st = it.step.const()
        if st is None:
            if not E.ctx.entails(it.step > P(0)):
                raise Unsupported("range step of unknown sign")
            n = fdiv(hi - lo + it.step - 1, it.step)
            n = Ite(lo < hi, n, ZERO)
            return ("sym", ZERO, simp(n, E.ctx), lambda x: lo + P(x) * it.step)
        span = (hi - lo).const()
        if span is not None:
            return ("concrete", [concretise(lo + P(k)) for k in range(0, int(span), int(st))])
        if st == 1:
            return ("sym", lo, hi, lambda x: P(x))
        if st > 1:
            n = Ite(lo < hi, fdiv(hi - lo + st - 1, P(st)), ZERO)
            return ("sym", ZERO, simp(n, E.ctx), lambda x: lo + P(x) * P(st))
        if st == -1:
            return ("sym", ZERO, simp(Ite(hi < lo, lo - hi, ZERO), E.ctx), lambda x: lo - P(x))
        raise Unsupported("range step")
    import npmodel
    if isinstance(it, SArr):
        n = simp(it.shape_[0], E.ctx)
        c = n.const()
        if c is not None:
            return ("concrete", [npmodel.getitem(E, it, (i,)) for i in range(int(c))])
        return ("sym", ZERO, n, lambda x: npmodel.getitem(E, it, (P(x),), check=False))
    if isinstance(it, SEnum):
        k = iter_source(E, it.arr)
        if k[0] == "concrete":
            return ("concrete", [(i + it.start, v) for i, v in enumerate(k[1])])
        _, lo, hi, el = k
        return ("sym", lo, hi, lambda x: (P(x) - lo + P(it.start), el(x)))
    if isinstance(it, SZip):
        ks = [iter_source(E, a) for a in it.parts]
        if all(k[0] == "concrete" for k in ks):
            return ("concrete", list(zip(*[k[1] for k in ks])))
        syms = [k for k in ks if k[0] == "sym"]
        if len(syms) == len(ks):
            n = syms[0][2] - syms[0][1]
            for k in syms[1:]:
                if not E.ctx.entails((k[2] - k[1]).eq(n)):
                    raise Unsupported("zip of different lengths")
            return ("sym", ZERO, n, lambda x: tuple(k[3](P(x) + k[1]) for k in ks))
        raise Unsupported("zip of symbolic and concrete")
    if isinstance(it, SList):
        return ("sym", ZERO, it.n, lambda x: it.arr(P(x)))
    return ("concrete", E.iterate_concrete(it))


class SZip:
    def __init__(self, parts):
        self.parts = parts


# ------------------------------------------------------------------ for
def exec_for(E, s, it, fr):
    src = iter_source(E, it)
    if src[0] == "concrete":
        if len(src[1]) > 400:
            raise Unsupported("very long concrete loop")
        for v in src[1]:
            E.assign(s.target, v, fr)
            st = E.block(s.body, 0, fr)
            if st[0] == "ret":
                return st
            if st[0] == "break":
                return ("next", None)
        if s.orelse:
            return E.block(s.orelse, 0, fr)
        return ("next", None)
    _, lo, hi, elem = src
    if E.ctx.entails(hi <= lo):
        return ("next", None)
    names = [n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)]
    L = SymLoop(E, s, fr, lo, hi, lambda x: E.assign(s.target, elem(x), fr), names)
    if isinstance(it, SRange) and it.step.const() not in (1, -1):
        L.facts = lambda x: [elem(x) < simp(it.hi, E.ctx)]
    L.run()
    if E.ctx.entails(lo < hi):
        E.assign(s.target, elem(hi - 1), fr)
    else:
        for n in names:
            old = fr.env.get(n, _MISSING)
            E.setcell(("env", fr, n), Undef("loop variable after a possibly empty loop"))
    if s.orelse:
        return E.block(s.orelse, 0, fr)
    return ("next", None)


class CellInfo:
    __slots__ = ("cell", "init", "kind", "head", "headname", "end", "closed", "sort", "bname", "shape", "dtype")


def _isnumv(v):
    return isinstance(v, (bool, int, float, Poly)) and not isinstance(v, bool) or isinstance(v, Fraction)


class SymLoop:
    """for x in [lo,hi): bind(x); body"""

    def __init__(self, E, s, fr, lo, hi, bind, names, cond=None):
        self.E, self.s, self.fr, self.lo, self.hi, self.bind, self.names = E, s, fr, lo, hi, bind, names
        self.cond = cond                  # while loops: callable evaluating the condition in the current state
        self.cells = {}                   # key -> CellInfo
        self.facts = lambda x: []         # what holds of every iteration
        self.grown, self.headbufs, self.piece = [], {}, False
        self.ends = {}
        self.last = False                 # while loops: stop before the last iteration
        self.bad = set()                  # cells whose guessed closed form is not inductive

    def name(self):
        return "loop@%s" % getattr(self.s, "lineno", "?")

    # -- one execution of the body from the current state
    def body(self):
        E, fr = self.E, self.fr
        fr.loops = getattr(fr, "loops", 0) + 1
        try:
            st = E.block(self.s.body, 0, fr)
        finally:
            fr.loops -= 1
        if st[0] not in ("next", "cont"):
            raise Unsupported("%s inside a symbolic loop" % st[0])

    def head_for(self, key, cell, init, endv):
        """create the head symbol of a modified cell"""
        E = self.E
        c = CellInfo()
        c.cell, c.init, c.closed, c.end = cell, init, None, None
        kind = cell[0]
        if kind == "buf":
            b = cell[1]
            c.kind = "buf"
            c.sort = "I" if b.dtype in INTD or b.dtype == "b" else "R"
            c.headname = E.site_name("H")
            lv = [P(v) for v in E.loopvars]
            c.head = sel(c.headname, lv + formals(len(b.dims)), c.sort)
            if isinstance(b.body, F) or b.dtype == "b":
                c.head = c.head.eq(ONE)
                c.kind = "bbuf"
            return c
        if kind == "seq":
            raise Unsupported("list modified in a symbolic loop")
        if kind == "map":
            raise Unsupported("dictionary modified in a symbolic loop")
        v = endv
        if isinstance(v, (F, bool)) and (isinstance(init, (F, bool)) or init is _MISSING or isinstance(init, Undef)):
            c.kind = "bool"
            c.headname = E.site_name("h")
            c.sort = "I"
            c.head = sel(c.headname, [P(x) for x in E.loopvars], "I")
            if init is _MISSING or isinstance(init, Undef):
                c.kind = "tempbool"
            return c
        if _isnumv(v) and (_isnumv(init) or init is _MISSING or isinstance(init, Undef)):
            isint = P(v).is_int and (init is _MISSING or isinstance(init, Undef) or P(init).is_int)
            c.kind = "num"
            c.sort = "I" if isint else "R"
            c.headname = E.site_name("h")
            c.head = sel(c.headname, [P(x) for x in E.loopvars], c.sort)
            if init is _MISSING or isinstance(init, Undef):
                c.kind = "tempnum"
            return c
        if isinstance(v, SArr) and isinstance(init, SArr) and kind == "env" and v.ndim == init.ndim \
                and all(E.ctx.entails(a.eq(b)) for a, b in zip(v.shape_, init.shape_)):
            # functional update of an array-valued variable
            c.kind = "arr"
            c.shape = init.shape_
            c.dtype = init.dtype
            c.headname = E.site_name("A")
            c.sort = "I" if v.dtype in INTD and init.dtype in INTD else "R"
            c.head = sel(c.headname, [P(x) for x in E.loopvars] + formals(v.ndim), c.sort)
            return c
        if isinstance(v, SArr) and _isnumv(init) and kind == "env" and v.buf.id > self.maxbuf and v.ndim > 0 and v.dtype in FLTD \
                and not any(self.x in d.deep for d in v.shape_) and E.ctx0_of(self).entails(self.lo < self.hi if self.hi is not None else FALSE):
            # a number that the first iteration turns into an array
            c.kind = "arr"
            c.shape = [simp(d, E.ctx0_of(self)) for d in v.shape_]
            c.dtype = v.dtype
            c.headname = E.site_name("A")
            c.sort = "R"
            c.head = sel(c.headname, [P(x) for x in E.loopvars] + [ZERO if d is ONE else f for d, f in zip(c.shape, formals(v.ndim))], c.sort)
            self.grown.append(c)
            return c
        c.kind = "temp"
        c.head = Undef("loop-carried value of unsupported kind")
        return c

    def sethead(self, c, value=None):
        E = self.E
        h = c.head if value is None else value
        if c.kind in ("temp",):
            E.setcell(c.cell, Undef("loop-carried value of unsupported kind"))
        elif c.kind in ("tempnum", "tempbool"):
            E.setcell(c.cell, Undef("variable not assigned before the loop"))
        elif c.kind == "bool":
            E.setcell(c.cell, simp_f(h.eq(ONE), E.ctx) if isinstance(h, Poly) else h)
        elif c.kind == "arr":
            a = new_arr(c.shape, c.dtype, h)
            self.headbufs[id(a.buf)] = (c, a.buf)
            E.setcell(c.cell, a)
        else:
            E.setcell(c.cell, h)

    def endval(self, c, v):
        if c.kind in ("bool", "tempbool"):
            return ind(v) if isinstance(v, (F, bool)) else None
        if c.kind in ("num", "tempnum"):
            return P(v) if _isnumv(v) or isinstance(v, Poly) else None
        if c.kind == "buf":
            return P(v) if not isinstance(v, F) else ind(v)
        if c.kind == "bbuf":
            return ind(B(v))
        if c.kind == "arr":
            return getattr(v, "end", None) or v.body() if isinstance(v, SArr) else P(v) if v is c.init and _isnumv(v) else None
        return None

    def initval(self, c):
        v = c.init
        if v is _MISSING or isinstance(v, Undef):
            return None
        return self.endval(c, v)

    def rank(self, c):
        if c.kind in ("buf", "bbuf"):
            return len(c.cell[1].dims)
        if c.kind == "arr":
            return len(c.shape)
        return 0

    def dims(self, c):
        if c.kind in ("buf", "bbuf"):
            return c.cell[1].dims
        if c.kind == "arr":
            return c.shape
        return []

    def fctx(self, ctx, c):
        return ctx.extend(*[And(P(0) <= f, f < d) for f, d in zip(formals(self.rank(c)), self.dims(c))])

    # -- trial runs: which cells change and how
    def trial(self):
        E = self.E
        maxbuf = self.maxbuf = Buf._n
        x = self.x
        for attempt in range(6):
            mark = len(E.log)
            sc = dict(E.sites)
            E.trial += 1
            lg = len(E.obls)
            try:
                self.headbufs = {}
                for c in self.cells.values():
                    self.sethead(c)
                self.mark_body = len(E.log)
                if self.bind is not None:
                    self.bind(x)
                if self.cond is not None:
                    g = E.truth(self.cond())
                    self.condf = g
                    if g is not True:
                        E.ctx = E.ctx.extend(g)
                mb = len(E.log)
                self.body()
                ch = E.changed_since(mb)
                newc = {}
                for k, (cell, old) in ch.items():
                    if cell[0] == "env" and cell[1] is not self.fr and cell[1] not in E.frames:
                        continue
                    if cell[0] == "env" and cell[1] is self.fr and cell[2] in self.names:
                        continue
                    if cell[0] == "buf" and cell[1].id > maxbuf:
                        continue
                    if cell[0] in ("attr", "obj", "map", "seq") and id(cell[1]) not in self.known_ids(cell):
                        pass
                    v = E.getcell(cell)
                    if isinstance(v, SArr) and isinstance(old, SArr) and v.buf is old.buf and v.axes == old.axes and v.shape_ == old.shape_:
                        continue
                    if isinstance(v, SArr) and v.buf.id > maxbuf:       # its contents outlive the rollback below
                        v = SArr(v.buf, v.shape_, v.axes)
                        v.end = v.body()
                    newc[k] = (cell, v)
                for k, c in self.cells.items():
                    if c.kind == "arr" and k not in newc and any(h is c and b.body is not c.head for h, b in self.headbufs.values()):
                        if c not in self.grown:
                            raise Unsupported("array variable both rebound and updated in place in a loop")
                        v = E.getcell(c.cell)
                        v = SArr(v.buf, v.shape_, v.axes)
                        v.end = v.body()
                        newc[k] = (c.cell, v)
            finally:
                E.trial -= 1
                E.rollback(mark)
                E.sites = sc
                E.ctx = self.ctx_in
            fresh = [k for k in newc if k not in self.cells]
            for k in fresh:
                cell, endv = newc[k]
                if cell[0] == "buf" and cell[1].id > maxbuf:
                    continue
                self.cells[k] = self.head_for(k, cell, E.getcell(cell), endv)
            if not fresh:
                for k, c in self.cells.items():
                    c.end = self.endval(c, newc[k][1]) if k in newc else (self.endval(c, c.head) if c.kind in ("buf", "num") else None)
                    if k not in newc and c.kind in ("bool",):
                        c.end = c.head
                    if k not in newc and c.kind in ("bbuf",):
                        c.end = ind(c.head)
                    if k not in newc and c.kind == "arr":
                        c.end = c.head
                    if c.kind == "arr" and k in newc and not isinstance(newc[k][1], SArr):
                        raise Unsupported("array variable changes kind in a loop")
                return
        raise Unsupported("loop does not settle")

    def known_ids(self, cell):
        return ()

    def headpoly(self, c):
        return ind(c.head) if isinstance(c.head, F) else c.head

    # -- closed forms
    def solve(self, exclude=()):
        E = self.E
        x = self.x
        lo = self.lo
        todo = [c for k, c in self.cells.items() if c.kind != "temp" and k not in exclude]
        unresolved_names = {c.headname for c in todo} | {self.cells[k].headname for k in exclude if self.cells[k].kind != "temp"}
        smap = {}
        progress = True
        while progress and todo:
            progress = False
            for c in list(todo):
                if c.end is None:
                    todo.remove(c)
                    continue
                e = c.end
                if smap and e.deep & set(smap):
                    e = subst(e, {}, smap)
                    e = simp(e, self.fctx(self.ctx_in, c))
                self.ends[id(c)] = e
                others = unresolved_names - {c.headname}
                if e.deep & others:
                    # perhaps only through cells it does not really need
                    continue
                cl = self.closed_form(c, e)
                if cl is None:
                    continue
                c.closed = cl
                todo.remove(c)
                unresolved_names.discard(c.headname)
                smap[c.headname] = self.closer(c, cl)
                progress = True
        return todo

    def closer(self, c, cl):
        """substitution for sel(headname, loopvars + idx)"""
        lv = list(self.E.loopvars)
        n = len(lv)

        def f(args):
            m = {v: a for v, a in zip(lv, args[:n]) if P(v) is not a}
            m.update({fa: a for fa, a in zip(formal_atoms(8), args[n:])})
            return subst(cl, m) if m else cl
        return f

    def closed_form(self, c, e):
        """closed form at the head of iteration x, as a Poly in x and formals"""
        E, x, lo = self.E, self.x, self.lo
        ctx = self.fctx(self.ctx_in, c)
        hctx = self.fctx(self.ctx_head, c)
        init = self.initval(c)
        H = self.headpoly(c)
        hn = c.headname
        X = P(x)
        if hn not in e.deep:
            # last value
            if init is None:
                return ("last", e)
            v = Ite(X > lo, subst(e, {x: X - 1}), init)
            return v
        if init is None:
            return None
        d = simp(e - H, ctx)
        t = var(E.site_name("t"))
        if hn not in d.deep:
            out, rest = self.tiles(d)
            return init + out + mk_sum(t, lo, X, subst(rest, {x: P(t)}))
        if c.kind in ("buf", "bbuf", "arr"):
            Ha = H.as_atom() if not isinstance(c.head, F) else None
            # overwritten on a region that does not depend on x
            if Ha is not None:
                coef, rest = ZERO, ZERO
                lin = True
                for m, k in e.terms:
                    mono = T._mk_poly({m: k})
                    if any(a is Ha for a, _ in m):
                        mm = [(a, p) for a, p in m if a is not Ha]
                        if any(a is Ha and p != 1 for a, p in m) or any(hn in a.deep for a, _ in mm):
                            lin = False
                            break
                        coef = coef + T._mk_poly({tuple(mm): k})
                    elif hn in mono.deep:
                        lin = False
                        break
                    else:
                        rest = rest + mono
                if lin and x not in coef.deep and self._is01poly(coef):
                    v = Ite(X > lo, coef * init + subst(rest, {x: X - 1}), init)
                    return v
            # every cell written at most once: its old value is the initial one
            lv = len(E.loopvars)
            i2 = subst(d, {}, {hn: lambda args: subst(init, {f: a for f, a in zip(formal_atoms(8), args[lv:])})})
            i2 = simp(i2, ctx)
            return init + mk_sum(t, lo, X, subst(i2, {x: P(t)}))
        if c.kind == "num" and c.sort == "I" and self.hi is not None:
            # a position that wraps around: it moves in steps if it never comes to the end
            for m, k in e.terms:
                for a, _ in m:
                    if a.kind != "ind" or hn not in a.deep:
                        continue
                    for keep in (ONE, ZERO):
                        step = simp(subst(e, {a: keep}) - H, ctx)
                        if hn in step.deep or x in step.deep or step is ZERO:
                            continue
                        guess = init + step * (X - lo)
                        e2 = subst(e, {}, {hn: lambda args: guess})
                        if prove_zero(e2 - guess - step, self.ctx_in)[0]:
                            return guess
        return None

    def tiles(self, d):
        """sums over consecutive ranges [start(x), end(x)) with end(x-1) = start(x), added up iteration by iteration"""
        x, lo, X = self.x, self.lo, P(self.x)
        out, rest = ZERO, d
        for m, k in d.terms:
            l = [a for a, e in m if x in a.deep]
            if len(l) != 1 or l[0].kind != "sum" or dict(m)[l[0]] != 1:
                continue
            j, body, jlo, jhi = T.open_sum(l[0])
            s = array_offset(body, j, x)
            if s is None:
                continue
            body = simp(subst(body, {j: P(j) - s}), self.ctx_in)
            if x in body.deep:
                continue
            start, end = simp(jlo + s, self.ctx_in), simp(jhi + s, self.ctx_in)
            before = subst(end, {x: X - 1})
            mid = self.ctx_in.extend(lo < X, *[subst(f, {x: X - 1}) for f in self.facts(X)])
            ok, how = prove_zero(before - start, mid)
            if not ok:
                continue
            first = subst(start, {x: lo})
            if not self.E.ctx0_of(self).entails(subst(before, {x: lo}).eq(first)):
                before = Ite(X > lo, before, first)
            co = T._mk_poly({tuple((a, e) for a, e in m if a is not l[0]): k})
            out = out + co * mk_sum(j, first, before, body)
            rest = rest - T._mk_poly({m: k})
        return out, rest

    def _is01poly(self, p):
        for m, k in p.terms:
            for a, _ in m:
                if a.kind != "ind":
                    return False
        return True

    def at(self, c, pos):
        """closed form at position pos (Poly), simplified in the current context"""
        cl = c.closed
        if isinstance(cl, tuple):
            return None
        return subst(cl, {self.x: P(pos)})

    def install(self, c, pos, ctx=None):
        E = self.E
        if isinstance(c.closed, tuple):
            return self.sethead(c)
        v = simp(self.at(c, pos), self.fctx(ctx or E.ctx, c))
        if c.kind == "bool":
            E.setcell(c.cell, simp_f(v.eq(ONE), E.ctx))
        elif c.kind == "bbuf":
            E.setcell(c.cell, simp_f(v.eq(ONE), self.fctx(E.ctx, c)))
        elif c.kind == "arr":
            E.setcell(c.cell, new_arr(c.shape, join_dtype(c.dtype, "f8") if c.sort == "R" else c.dtype, v))
        elif c.kind in ("tempnum", "tempbool") and False:
            pass
        else:
            E.setcell(c.cell, concretise(v) if c.kind == "num" else v)

    # -- main
    def run(self):
        E = self.E
        n = len(E.loopvars)
        L = E.quick.get((id(self.s), id(self.fr))) if E.trial else None
        if L is not None:
            self.again(L, E.invariants_for(self))
            self.post_ctx = E.ctx
            return
        self.x = var(E.site_name("i"))
        self.lo, self.hi = P(self.lo), (P(self.hi) if self.hi is not None else None)
        ctx0 = E.ctx
        lv0 = E.loopvars
        X = P(self.x)
        E.loopvars = lv0 + [self.x]
        try:
            self.ctx_in = ctx0.extend(self.lo <= X, *([X < self.hi] if self.hi is not None else []), *self.facts(X))
            self.ctx_head = ctx0.extend(self.lo <= X, *([X <= self.hi] if self.hi is not None else []))
            E.ctx = self.ctx_in
            sites0 = dict(E.sites)
            inv0 = E.inv_used
            E.inv_used = 0
            inv = E.invariants_for(self)
            nest = inv is not None and any(isinstance(q, (ast.For, ast.While)) for st in self.s.body for q in ast.walk(st))
            if nest:
                for a in inv.arrays():           # they change in the inner loops: start from arbitrary contents
                    cell = ("buf", a.buf, None)
                    k = (cell[0], id(cell[1]), None)
                    if k not in self.cells:
                        self.cells[k] = self.head_for(k, cell, E.getcell(cell), None)
                E.rough += 1
                try:
                    self.trial()
                finally:
                    E.rough -= 1
            else:
                self.trial()
            inner_inv = E.inv_used
            E.inv_used = inv0
            inv = E.invariants_for(self)
            if self.hi is None:
                self.find_count(ctx0)
            done = False
            if self.hi is not None and not nest and not (inner_inv and inv is not None):
                mark = len(E.log)
                nob = len(E.obls)
                try:
                    todo = self.solve()
                    todo = [c for c in todo if c.closed is None]
                    if todo:
                        raise NotSummarisable("no closed form for %s" % ", ".join(cellname(c.cell) for c in todo))
                    if not E.trial:
                        self.verify(sites0)
                    done = True
                except NotSummarisable as ex:
                    if DBG:
                        print("  loop", E.curname(), self.s.lineno, "not summarised:", str(ex)[:1000], file=sys.stderr)
                    E.rollback(mark)
                    del E.obls[nob:]
                    E.sites = dict(sites0)
                    for c in self.cells.values():
                        c.closed = None
            if not done:
                at = self.split_point(ctx0) if inv is None or not inner_inv and not nest else None
                if at is None:
                    self.invariant_loop(inv, ctx0, lv0, sites0)
                    return
            else:
                at = None
            E.stats["loops_summarised"] += 0 if E.trial else 1
            # account for the sites consumed by one execution
            self.advance_sites(sites0)
        finally:
            E.loopvars = lv0
            E.ctx = ctx0
        hi = self.hi
        if at is not None:
            # the first iterations and the others, one loop after the other
            for lo, hi in ((self.lo, at), (at, hi)):
                E.sites = dict(sites0) if lo is self.lo else E.sites
                L = SymLoop(E, self.s, self.fr, lo, hi, self.bind, self.names, self.cond)
                L.facts = self.facts
                L.piece = True
                L.run()
            return
        if not E.ctx.entails(self.lo <= hi):
            hi = Ite(self.lo <= hi, hi, self.lo)
        for c in self.cells.values():
            if c.kind == "temp" or c.closed is None:
                E.setcell(c.cell, Undef("value left by the last iteration"))
            elif isinstance(c.closed, tuple):
                if E.ctx.entails(self.lo < hi):
                    v = simp(subst(c.closed[1], {self.x: hi - 1}), E.ctx)
                    E.setcell(c.cell, simp_f(v.eq(ONE), E.ctx) if c.kind == "tempbool" else concretise(v))
                else:
                    E.setcell(c.cell, Undef("variable assigned in a possibly empty loop"))
            else:
                self.install(c, hi)

    def split_point(self, ctx0):
        """an iteration s at which a condition of the body on the iteration changes"""
        if self.piece or self.hi is None:
            return None
        heads = {c.headname for c in self.cells.values() if c.kind != "temp"}
        for c in self.cells.values():
            if c.kind == "temp" or c.end is None:
                continue
            for a in sorted(all_atoms(self.ends.get(id(c), c.end)), key=lambda a: a.id):
                if a.kind != "ind" or a.args[0].op != "lt0" or self.x not in a.deep:
                    continue
                s = solve_for(a.args[0].args[0], self.x)
                if s is None or heads & s[1].deep or self.x in s[1].deep:
                    continue
                at = simp(-s[1] if s[0] == 1 else s[1] + 1, ctx0)
                if at.is_int and ctx0.entails(And(self.lo <= at, at <= self.hi)):
                    return at
        return None

    def advance_sites(self, sites0):
        pass

    def verify(self, sites0):
        """base and step of the closed-form invariant"""
        if self.grown:
            # numbers that become arrays: the first iteration is checked on its own, with the numbers
            E, ctx = self.E, self.ctx_in
            self.ctx_in = ctx.extend(P(self.x).eq(self.lo))
            try:
                self.verify1(sites0, first=True)
            finally:
                self.ctx_in = ctx
        self.verify1(sites0)

    def verify1(self, sites0, first=False):
        E = self.E
        x, lo = self.x, self.lo
        X = P(x)
        mark = len(E.log)
        E.sites = dict(sites0)
        E.ctx = self.ctx_in
        try:
            for c in self.cells.values():
                if first and c in self.grown:
                    E.setcell(c.cell, c.init)
                elif c.kind == "temp" or c.closed is None:
                    self.sethead(c)
                else:
                    self.install(c, X, self.ctx_in)
            if self.bind is not None:
                self.bind(x)
            if self.cond is not None:
                g = E.truth(self.cond())
                if g is not True and not E.ctx.entails(B(g)):
                    raise NotSummarisable("loop condition does not hold before the computed exit")
            self.body()
            for c in self.cells.values():
                if c.kind == "temp" or c.closed is None:
                    continue
                got = self.endval(c, E.getcell(c.cell))
                if got is None:
                    raise NotSummarisable("kind changed")
                cx = self.fctx(self.ctx_in, c)
                if isinstance(c.closed, tuple):
                    want = c.closed[1]
                else:
                    want = self.at(c, X + 1)
                    # base
                    b0 = self.at(c, lo)
                    i0 = self.initval(c)
                    if i0 is not None and c not in self.grown:
                        ok, how = prove_zero(b0 - i0, self.fctx(E.ctx0_of(self), c))
                        if not ok:
                            self.bad.add(c.cell)
                            raise NotSummarisable("closed form of %s wrong at entry: %s" % (cellname(c.cell), how))
                ok, how = prove_zero(got - want, cx)
                if not ok:
                    self.bad.add(c.cell)
                    raise NotSummarisable("closed form of %s not preserved: %s" % (cellname(c.cell), how[:600]))
            E.record("%s: closed-form invariant holds on entry and is preserved" % self.name())
        finally:
            E.rollback(mark)
            E.ctx = self.ctx_in

    # -- while loops: number of iterations
    def find_count(self, ctx0):
        E = self.E
        todo = self.solve()
        x = self.x
        smap = {c.headname: self.closer(c, c.closed) for c in self.cells.values()
                if c.closed is not None and not isinstance(c.closed, tuple) and c.kind != "temp"}
        g = self.condf
        if g is True or g is False:
            for c in self.cells.values():
                c.closed = None
            return
        g = subst(g, {}, smap)
        g = simp_f(g, self.ctx_in)
        n = None
        if g.op == "lt0":
            p = g.args[0]
            co = None
            for m, k in p.terms:
                if len(m) == 1 and m[0][0] is x and m[0][1] == 1:
                    co = k
            if co is not None:
                rest = p - P(x) * P(co)
                if x not in rest.deep and co > 0 and not any(
                        c.headname in rest.deep for c in self.cells.values() if c.kind != "temp"):
                    # co*x + rest < 0  <=>  x < -rest/co  ;  integer: x < ceil(-rest/co)
                    if co == 1 and rest.is_int:
                        n = -rest
                    elif rest.is_int and co.denominator == 1:
                        n = -fdiv(rest, P(co))
        for c in self.cells.values():
            c.closed = None
        if n is None:
            return
        n = simp(n, ctx0)
        if not ctx0.entails(n >= P(0)):
            n = simp(Ite(n >= P(0), n, ZERO), ctx0)
        self.hi = n
        X = P(x)
        self.ctx_in = ctx0.extend(self.lo <= X, X < self.hi)
        self.ctx_head = ctx0.extend(self.lo <= X, X <= self.hi)
        E.ctx = self.ctx_in

    # -- supplied / machine-found invariants
    def invariant_loop(self, inv, ctx0, lv0, sites0):
        """havoc mode.  inv: contract invariant (or None)"""
        E = self.E
        x = self.x
        X = P(x)
        E.inv_used += 1
        covered = {}
        if inv is not None:
            covered = inv.covered(self)           # cell key -> role
        # which cells still have a closed form on their own (independent of havocked ones)?
        if inv is not None:
            for c in self.cells.values():       # arbitrary after an inner loop
                if c.end is not None and c.kind in ("buf", "num", "tempnum") and any(
                        a.kind == "sel" and a.args[0].startswith(("hv!", "rough!")) and a.args[0] not in inv.names for a in all_atoms(P(c.end))):
                    self.bad.add(c.cell)
        exclude = set(covered) | {k for k, c in self.cells.items() if c.cell in self.bad}
        for c in self.cells.values():
            c.closed = None
        todo = self.solve(exclude) if self.hi is not None else [c for k, c in self.cells.items() if c.kind != "temp" and k not in exclude]
        todo = todo + [c for k, c in self.cells.items() if k in exclude and k not in covered]
        havoc = [c for c in todo if c.closed is None and c.kind != "temp"]
        if DBG:
            print("  loop", E.curname(), self.s.lineno, "invariant mode; havoc:", [cellname(c.cell) for c in havoc],
                  "covered", len(covered), file=sys.stderr)
        # entry
        E.loopvars = lv0
        E.ctx = ctx0
        if inv is not None and covered and not E.trial:
            inv.check(self, "on entry of %s" % self.name())
        # candidate facts for havocked scalars
        cands = {}
        for c in havoc:
            if c.kind == "num":
                cands[id(c)] = self.candidates(c, ctx0)
        resolved = [c for c in self.cells.values() if c.closed is not None]
        frames = {id(c): self.rows_written(c) for c in havoc if c.kind == "buf" and c.end is not None}

        def kept(c):
            # what lies outside the written rows is as before the loop
            for f, e in frames.get(id(c), ()):
                ok, how = prove_zero(P(E.getcell(c.cell)) - c.init, self.fctx(E.ctx, c).extend(Not(f.eq(e))))
                if not ok:
                    raise Unsupported("rows written by %s: %s" % (cellname(c.cell), how[:300]))

        def setup(ctxbase, pos, after=False):
            """install an arbitrary state satisfying the invariants; returns the facts to assume"""
            facts = []
            for c in self.cells.values():
                if c.kind == "temp":
                    self.sethead(c)
            for c in resolved:
                if not after:
                    if isinstance(c.closed, tuple):
                        self.sethead(c)
                    else:
                        self.install(c, pos, ctxbase)
            for c in havoc:
                nm = E.site_name("hv")
                if c.cell in self.bad:
                    E.weak.add(nm)
                lvp = [P(v) for v in E.loopvars]
                if c.kind in ("num", "bool"):
                    h = sel(nm, lvp, c.sort)
                    if c.kind == "bool":
                        E.setcell(c.cell, h.eq(ONE))
                    else:
                        E.setcell(c.cell, h)
                        facts += [f(h) for f in cands[id(c)]]
                elif c.kind in ("tempnum", "tempbool"):
                    self.sethead(c)
                elif c.kind in ("buf", "arr"):
                    b = sel(nm, lvp + formals(self.rank(c)), c.sort)
                    if c.kind == "buf":
                        for f, e in frames.get(id(c), ()):
                            b = Ite(f.eq(e), b, c.init)
                        E.setcell(c.cell, b)
                    else:
                        self.sethead(c, b)
                elif c.kind == "bbuf":
                    E.setcell(c.cell, sel(nm, lvp + formals(self.rank(c)), "I").eq(ONE))
            if inv is not None and covered:
                facts += inv.havoc(self)
            return facts

        # Houdini: drop candidates until inductive
        E.loopvars = lv0 + [x]
        for _ in range(12):
            mark = len(E.log)
            E.sites = dict(sites0)
            E.trial += 1
            dropped = False
            try:
                E.ctx = self.ctx_in
                E.ctx = self.ctx_in.extend(*setup(self.ctx_in, X))
                if self.bind is not None:
                    self.bind(x)
                if self.cond is not None:
                    g = E.truth(self.cond())
                    if g is not True:
                        E.ctx = E.ctx.extend(B(g))
                self.body()
                for c in havoc:
                    if c.kind != "num":
                        continue
                    v = E.getcell(c.cell)
                    if not (_isnumv(v) or isinstance(v, Poly)):
                        raise Unsupported("loop-carried value changes kind")
                    keep = []
                    for f in cands[id(c)]:
                        g = simp_f(f(P(v)), E.ctx)
                        if g is TRUE or E.ctx.entails(g):
                            keep.append(f)
                        else:
                            dropped = True
                    cands[id(c)] = keep
            finally:
                E.trial -= 1
                E.rollback(mark)
                E.ctx = self.ctx_in
            if not dropped:
                break
        # the real run
        again, nob = False, len(E.obls)
        for first in () if E.trial else (True, False) if self.grown else (False,):
            if again:
                break
            mark = len(E.log)
            E.sites = dict(sites0)
            try:
                E.ctx = self.ctx_in
                E.ctx = self.ctx_in.extend(*setup(self.ctx_in, X), *([X.eq(self.lo)] if first else []))
                for c in self.grown if first else ():      # numbers that become arrays
                    E.setcell(c.cell, c.init)
                if not E.ctx.consistent():
                    raise Unsupported("loop invariant is contradictory")
                if self.bind is not None:
                    self.bind(x)
                if self.cond is not None:
                    g = E.truth(self.cond())
                    if g is not True:
                        E.ctx = E.ctx.extend(B(g))
                self.body()
                for c in havoc:
                    kept(c)
                if inv is not None and covered:
                    inv.check(self, "preserved by %s" % self.name())
                for c in resolved:
                    got = self.endval(c, E.getcell(c.cell))
                    if got is None:
                        raise Unsupported("kind changed")
                    want = c.closed[1] if isinstance(c.closed, tuple) else self.at(c, X + 1)
                    ok, how = prove_zero(got - want, self.fctx(E.ctx, c))
                    if not ok:
                        if c.cell in self.bad:
                            raise Unsupported("closed form of %s not preserved: %s" % (cellname(c.cell), how[:500]))
                        if DBG:
                            print("  loop", E.curname(), self.s.lineno, "closed form of", cellname(c.cell), "not preserved:", how[:1500], file=sys.stderr)
                        self.bad.add(c.cell)
                        again = True
                        break
                if not first and not again:
                    E.record("%s: invariant (havoc of %d locations) holds on entry and is preserved" % (self.name(), len(havoc) + len(covered)))
                    E.stats["loops_invariant"] += 1
            finally:
                E.rollback(mark)
                E.ctx = self.ctx_in
        if again:
            del E.obls[nob:]
            E.sites = dict(sites0)
            E.loopvars = lv0 + [x]
            E.ctx = self.ctx_in
            return self.invariant_loop(inv, ctx0, lv0, sites0)
        # state after the loop
        E.loopvars = lv0
        E.ctx = ctx0
        E.sites = dict(sites0)
        facts = setup(ctx0, X, after=True)
        hi = self.hi
        if hi is not None:
            if not ctx0.entails(self.lo <= hi):
                hi = Ite(self.lo <= hi, hi, self.lo)
            for c in resolved:
                if isinstance(c.closed, tuple):
                    if ctx0.entails(self.lo < hi):
                        E.setcell(c.cell, concretise(simp(subst(c.closed[1], {self.x: hi - 1}), ctx0)))
                    else:
                        E.setcell(c.cell, Undef("assigned in a possibly empty loop"))
                else:
                    self.install(c, hi, ctx0)
        E.ctx = ctx0.extend(*facts)
        if self.cond is not None:
            g = E.truth(self.cond())
            if g is not True and g is not False:
                E.ctx = E.ctx.extend(B(g) if self.last else Not(B(g)))
        for c in havoc:
            if c.kind in ("tempnum", "tempbool"):
                E.setcell(c.cell, Undef("assigned in a loop"))
        self.post_ctx = E.ctx
        if inv is not None and covered and not any(frames.values()) and all(isinstance(c.closed, tuple) for c in resolved) and not self.grown and self.cond is None and all(c.kind in ("buf", "tempnum", "tempbool") for c in havoc):
            self.havocked = havoc
            E.quick[id(self.s), id(self.fr)] = self

    def again(self, L, inv):
        """what the loop leaves behind, in a run that only finds out what an enclosing loop changes"""
        E = self.E
        E.inv_used += 1
        for c in L.cells.values():
            if c.kind == "temp":
                self.sethead(c)
            elif c.closed is not None:
                E.setcell(c.cell, Undef("value left by the last iteration"))
        for c in L.havocked:
            if c.kind == "buf":
                nm = E.site_name("hv")
                if c.cell in L.bad:
                    E.weak.add(nm)
                E.setcell(c.cell, sel(nm, [P(v) for v in E.loopvars] + formals(L.rank(c)), c.sort))
            else:
                E.setcell(c.cell, Undef("assigned in a loop"))
        E.ctx = E.ctx.extend(*inv.havoc(L))

    def rows_written(self, c):
        """[(formal, e)]: the body changes the buffer only where formal = e"""
        heads = {k.headname for k in self.cells.values() if k.kind != "temp"}
        out = []
        for f in formals(self.rank(c)):
            for a in all_atoms(c.end):
                if a.kind != "ind" or a.args[0].op != "eq0" or f.as_atom() not in a.deep:
                    continue
                s = solve_for(a.args[0].args[0], f.as_atom())
                if s is None or s[0] not in (1, -1):
                    continue
                e = -s[1] * s[0]
                if self.x in e.deep or heads & e.deep or any(g.as_atom() in e.deep for g in formals(self.rank(c))):
                    continue
                if simp(c.end - c.head, self.fctx(self.ctx_in, c).extend(Not(f.eq(e)))) is ZERO:
                    out.append((f, e))
                    break
        return out

    def candidates(self, c, ctx0):
        init = P(c.init)
        out = []
        E = self.E

        def add(f):
            g = simp_f(f(init), ctx0)
            if g is TRUE or ctx0.entails(g):
                out.append(f)
        ks = {Fraction(0), Fraction(-1), Fraction(1)}
        for k in sorted(ks):
            add(lambda h, k=k: h >= P(k))
        add(lambda h: h <= init)
        add(lambda h: h >= init)
        if c.sort == "I":
            bounds = set()
            for f in self.E.frames[-1].env.values():
                if isinstance(f, Poly) and f.is_int and len(f.terms) == 1 and f.as_atom() is not None:
                    bounds.add(f)
                elif isinstance(f, SArr):
                    for d in f.shape_:
                        if d.const() is None:
                            bounds.add(d)
            for b in sorted(bounds, key=lambda p: p.id)[:12]:
                if any(v in b.deep for v in [self.x]):
                    continue
                add(lambda h, b=b: h < b)
                add(lambda h, b=b: h <= b)
        return out


def cellname(cell):
    if cell[0] == "env":
        return cell[2]
    if cell[0] == "buf":
        return cell[1].name
    return "%s.%s" % (type(cell[1]).__name__, cell[2])


# ------------------------------------------------------------------ while
def exec_while(E, s, fr):
    cond = lambda: E.ev(s.test, fr)
    # concrete unrolling while the condition is concrete and state stays concrete
    for _ in range(200):
        mark = len(E.log)
        g = E.truth(cond())
        if g is False:
            return ("next", None)
        if g is True and not getattr(fr, "loops", 0) and is_concrete_loop(E, s, fr):
            st = E.block(s.body, 0, fr)
            if st[0] == "ret":
                return st
            if st[0] == "break":
                return ("next", None)
            continue
        break
    lv = list(E.loopvars)
    if E.truth(cond()) is False:
        return ("next", None)
    L = SymLoop(E, s, fr, ZERO, None, None, [], cond=cond)
    mark = len(E.log)
    L.run_while()
    return ("next", None)


def is_concrete_loop(E, s, fr):
    names = {n.id for n in ast.walk(s.test) if isinstance(n, ast.Name)}
    return all(not isinstance(fr.env.get(n), (Poly, SArr)) for n in names)


def _run_while(self):
    """count-based if possible, otherwise peel one iteration when the condition is known and use invariants"""
    E = self.E
    ctx0 = E.ctx
    self.ctx0 = ctx0
    # probe: is the number of iterations computable?
    probe = SymLoop(E, self.s, self.fr, ZERO, None, None, [], cond=self.cond)
    mark = len(E.log)
    lv0, sites0 = E.loopvars, dict(E.sites)
    countable = False
    try:
        probe.x = var(E.site_name("i"))
        probe.lo = ZERO
        X = P(probe.x)
        E.loopvars = lv0 + [probe.x]
        probe.ctx_in = ctx0.extend(X >= P(0))
        probe.ctx_head = probe.ctx_in
        E.ctx = probe.ctx_in
        iu = E.inv_used
        probe.trial()
        E.inv_used = iu
        probe.find_count(ctx0)
        countable = probe.hi is not None
    finally:
        E.loopvars, E.ctx, E.sites = lv0, ctx0, sites0
        E.rollback(mark)
    if not countable and pointer_walk(E, self, probe):
        return
    if countable:
        L = SymLoop(E, self.s, self.fr, ZERO, probe.hi, None, [], cond=self.cond)
        if E.ctx.entails(probe.hi <= P(0)):
            return
        L.run()
        return
    g = E.truth(self.cond())
    if g is True or (isinstance(g, F) and E.ctx.entails(g)):
        # at least one iteration: the state is the one the last iteration leaves, started in any state of the invariant
        L = SymLoop(E, self.s, self.fr, ZERO, None, None, [], cond=self.cond)
        L.last = True
        L.run()
        E.ctx = L.post_ctx
        st = E.block(self.s.body, 0, self.fr)
        if st[0] not in ("next", "cont"):
            raise Unsupported("jump out of a while loop")
        g = E.truth(self.cond())
        if g is not True and g is not False:
            E.ctx = E.ctx.extend(Not(B(g)))
        return
    if DBG:
        print("  loop", E.curname(), self.s.lineno, "may not be entered:", g, file=sys.stderr)
    L = SymLoop(E, self.s, self.fr, ZERO, None, None, [], cond=self.cond)
    L.run()
    if hasattr(L, "post_ctx"):
        E.ctx = L.post_ctx


def pointer_walk(E, loop, probe):
    """while ptr[h + k] <= q: h += 1   over non-decreasing row pointers: h stops at the owner of q"""
    import smt
    import terms as T
    if len(probe.cells) != 1:
        return False
    c, = probe.cells.values()
    if c.kind != "num" or c.sort != "I" or c.end is None or simp(c.end - c.head, E.ctx) is not ONE:
        return False
    g = probe.condf
    if not isinstance(g, F):
        return False
    if g.op == "lt0":
        p = g.args[0]                     # ptr - q - 1 < 0
    elif g.op == "not" and g.args[0].op == "lt0":
        p = -g.args[0].args[0] - ONE      # not (q - ptr < 0)
    else:
        return False
    for m, k in p.terms:
        a = m[0][0] if len(m) == 1 and m[0][1] == 1 else None
        if a is None or a.kind != "sel" or k != 1:
            continue
        nm = a.args[0]
        off = a.args[1][0] - c.head
        q = P(a) - p - ONE
        if c.headname in off.deep or c.headname in q.deep or len(a.args[1]) != 1:
            continue
        if nm not in smt.MONO:
            continue
        last, own, total = smt.MONO[nm]
        h0 = P(c.init)
        res = simp(T.sel(own, [q], "I"), E.ctx) + ONE - off
        if not E.trial:
            s0 = h0 + off - ONE
            need = And(P(0) <= q, q < total, P(0) <= s0, s0 <= last, T.sel(nm, [s0], "I") <= q)
            ok, how = prove(need, E.ctx)
            if not ok:
                if DBG:
                    print("  pointer walk: ", how, file=sys.stderr)
                return False
            ctx0, mark = E.ctx, len(E.log)
            h = P(var(E.site_name("w")))
            try:                          # the condition and the body at every position passed
                E.ctx = ctx0.extend(h0 <= h, h <= res)
                E.setcell(c.cell, h)
                E.truth(loop.cond())
            finally:
                E.rollback(mark)
                E.ctx = ctx0
            E.record("%s: pointer walk stops at the row that owns the position" % loop.name())
        E.setcell(c.cell, res)
        return True
    return False


SymLoop.run_while = _run_while
_old_run = SymLoop.run


def _run(self):
    E = self.E
    self._ctx0 = E.ctx
    _old_run(self)
    if hasattr(self, "post_ctx"):
        E.ctx = self.post_ctx


SymLoop.run = _run


# ------------------------------------------------------------------ comprehensions
def comprehension(E, e, fr, kind):
    gens = e.generators
    out = []

    class CFrame(Frame):
        pass
    cf = Frame(fr.f)
    cf.closure = fr
    cf.loops = getattr(fr, "loops", 0)

    def rec(i):
        if i == len(gens):
            if kind == "dict":
                out.append((E.ev(e.key, cf), E.ev(e.value, cf)))
            else:
                out.append(E.ev(e.elt, cf))
            return
        g = gens[i]
        src = iter_source(E, E.ev(g.iter, cf if i else fr))
        if src[0] != "concrete":
            raise _SymComp(src, g)
        for v in src[1]:
            E.assign(g.target, v, cf)
            ok = True
            for c in g.ifs:
                b = E.truth(E.ev(c, cf))
                if not isinstance(b, bool):
                    b = E.fork(b)
                if not b:
                    ok = False
                    break
            if ok:
                rec(i + 1)
    try:
        rec(0)
    except _SymComp as sc:
        if len(gens) != 1 or kind == "dict" or gens[0].ifs:
            raise Unsupported("comprehension over a symbolic range")
        _, lo, hi, elem = sc.src
        x = var(E.site_name("c"))
        ctx0, lv0 = E.ctx, E.loopvars
        X = P(x)
        n = hi - lo
        if not E.ctx.entails(n >= P(0)):
            n = Ite(n >= P(0), n, ZERO)
        mark = len(E.log)
        try:
            E.loopvars = lv0 + [x]
            E.ctx = ctx0.extend(lo <= X, X < hi)
            E.assign(gens[0].target, elem(x), cf)
            mb = len(E.log)
            v = E.ev(e.elt, cf)
            for k, (cell, old) in E.changed_since(mb).items():
                if cell[0] != "env":
                    raise Unsupported("side effect in a comprehension")
        finally:
            E.loopvars, E.ctx = lv0, ctx0
        if isinstance(v, (int, float, Poly, F, bool)):
            f0 = formals(1)[0]
            body = subst(B(v) if isinstance(v, (F, bool)) else P(v), {x: f0 + lo})
            isint = not isinstance(v, (F, bool)) and P(v).is_int
            a = new_arr([n], "b" if isinstance(v, (F, bool)) else ("i8" if isint else "f8"), body)
            a.is_list = True
            return a
        if isinstance(v, SArr):
            return SList(n, lambda i, v=v, x=x, lo=lo: new_arr([subst(s, {x: P(i) + lo}) for s in v.shape_], v.dtype,
                                                              subst(v.body(), {x: P(i) + lo})))
        raise Unsupported("comprehension element of unsupported kind")
    if kind == "dict":
        return dict(out)
    return out


class _SymComp(Exception):
    def __init__(self, src, g):
        self.src, self.g = src, g


def _site_name(self, prefix):
    """deterministic fresh names: per call-stack site and occurrence, so re-runs of a body agree"""
    key = (prefix,) + tuple((f.f.qual, getattr(f, "cur", 0)) for f in self.frames) + (self.line, tuple(self.linestack()))
    k = self.sites.get(key, 0)
    self.sites[key] = k + 1
    full = key + (k,)
    n = self.site_ids.get(full)
    if n is None:
        n = len(self.site_ids) + 1
        self.site_ids[full] = n
    return "%s!%d" % (prefix, n)


def _linestack(self):
    return getattr(self, "lines", [])


Eng.site_name = _site_name
Eng.linestack = _linestack


def _record(self, name):
    if self.trial:
        return
    from interp import Obl
    self.obls.append(Obl(name, "loop invariant", True, "normal form+z3", "%s:%s" % (self.curname(), self.line), 0.0))


Eng.record = _record
Eng.ctx0_of = lambda self, loop: loop._ctx0
Eng.invariants_for = lambda self, loop: self.invariants.get(loop.fr.f.name, self.invariants.get("*"))
