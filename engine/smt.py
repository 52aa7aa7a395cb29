"""Contexts (path conditions), simplification under a context, and discharge of obligations.

Decision back ends: the normal form of terms.py plus the rewrite rules here ("normal form"), and z3 /
cvc5 for what the normal form leaves open.  Every rewrite that needs a side condition asks z3 for it.
"""
import sys
import time
import z3
from fractions import Fraction
from terms import *
import terms as T

STATS = {"z3_queries": 0, "z3_time": 0.0, "z3_unknown": 0, "cvc5_queries": 0, "cvc5_time": 0.0, "lemmas": {}}
Z3_TIMEOUT = 1500


import os
DBG = os.environ.get('VDEBUG')


class ArrInfo:
    """what is known of every element of a named array: facts(idx)->[F];  sumrules: see simp"""

    def __init__(self, name, sort="R", facts=None, rewrite=None, sumrule=None):
        self.name, self.sort, self.facts, self.rewrite, self.sumrule = name, sort, facts, rewrite, sumrule


ARR = {}
MONO = {}      # non-decreasing integer arrays (CSR row pointers): name -> (last index, ghost owner array, total)


def declare_array(name, sort="R", facts=None, rewrite=None, sumrule=None):
    ARR[name] = ArrInfo(name, sort, facts, rewrite, sumrule)
    return name


# ------------------------------------------------------------------ z3 translation
_zc = {}
_zf = {}


def z_poly(p):
    r = _zc.get(p)
    if r is not None:
        return r
    isint = _is_int(p)
    terms = []
    for m, c in p.sorted_terms():
        num, den = [], []
        for a, e in m:
            za = z_atom(a)
            if not isint and za.sort() == z3.IntSort():
                za = z3.ToReal(za)
            (num if e > 0 else den).extend([za] * abs(e))
        k = z3.IntVal(int(c)) if isint else z3.RealVal(str(c))
        t = None
        for x in num:
            t = x if t is None else t * x
        if t is None:
            t = k
        elif c != 1:
            t = k * t
        for x in den:
            t = t / x
        terms.append(t)
    if not terms:
        r = z3.IntVal(0) if isint else z3.RealVal(0)
    else:
        r = terms[0] if len(terms) == 1 else z3.Sum(terms)
    _zc[p] = r
    return r


def _is_int(p):
    return p.is_int


def z_atom(a):
    r = _zc.get(a)
    if r is not None:
        return r
    k = a.kind
    srt = z3.IntSort() if a.sort == "I" else z3.RealSort()
    if k == "sel":
        args = [z_poly(x) for x in a.args[1]]
        args = [z3.ToInt(x) if x.sort() != z3.IntSort() else x for x in args]
        key = (a.args[0], len(args), a.sort)
        f = _zf.get(key)
        if f is None:
            f = z3.Function("a_%s_%d_%s" % (a.args[0], len(args), a.sort), *([z3.IntSort()] * len(args) + [srt]))
            _zf[key] = f
        r = f(*args) if args else z3.Const("a_" + a.args[0], srt)
    elif k == "app" and a.args[0] in ("exp", "ln", "psi", "lgamma", "sqrt"):
        x = z_poly(a.args[1])
        if x.sort() == z3.IntSort():
            x = z3.ToReal(x)
        key = ("app", a.args[0])
        f = _zf.get(key)
        if f is None:
            f = z3.Function("f_" + a.args[0], z3.RealSort(), z3.RealSort())
            _zf[key] = f
        r = f(x)
    elif k == "app" and a.args[0] == "abs":
        x = z_poly(a.args[1])
        r = z3.If(x >= 0, x, -x)
    elif k == "ind":
        r = z3.If(z_f(a.args[0]), z3.IntVal(1), z3.IntVal(0))
    elif k == "paren":
        r = z_poly(a.args[0])
        if r.sort() == z3.IntSort():
            r = z3.ToReal(r)
    else:
        r = z3.Const("t_%s_%d" % (k, a.id), srt)
    _zc[a] = r
    return r


def z_f(f):
    r = _zc.get(f)
    if r is not None:
        return r
    o = f.op
    if o == "true":
        r = z3.BoolVal(True)
    elif o == "false":
        r = z3.BoolVal(False)
    elif o == "lt0":
        r = z_poly(f.args[0]) < 0
    elif o == "eq0":
        r = z_poly(f.args[0]) == 0
    elif o == "and":
        r = z3.And(*[z_f(g) for g in f.args])
    elif o == "or":
        r = z3.Or(*[z_f(g) for g in f.args])
    elif o == "not":
        r = z3.Not(z_f(f.args[0]))
    elif o == "bvar":
        r = z3.Bool("b_" + f.args[0])
    _zc[f] = r
    return r


def all_atoms(t, out=None):
    """atoms occurring outside binders (arguments included)"""
    if out is None:
        out = set()
    if isinstance(t, F):
        for g in t.args:
            if isinstance(g, (F, Poly)):
                all_atoms(g, out)
        return out
    for m, _ in t.terms:
        for a, _e in m:
            if a in out:
                continue
            out.add(a)
            if a.kind == "sel":
                for p in a.args[1]:
                    all_atoms(p, out)
            elif a.kind == "app":
                for p in a.args[1:]:
                    all_atoms(p, out)
            elif a.kind in ("ind", "paren", "floor"):
                all_atoms(a.args[0], out)
            elif a.kind == "fdiv":
                all_atoms(a.args[0], out)
                all_atoms(a.args[1], out)
            elif a.kind == "sum":
                all_atoms(a.args[3], out)
                all_atoms(a.args[4], out)
                _closed_atoms(a.args[2], out)
            elif a.kind == "red":
                all_atoms(a.args[4], out)
                all_atoms(a.args[5], out)
                _closed_atoms(a.args[3], out)
    return out


_hasbv = {}


def has_bv(t):
    """does a term mention a variable bound outside of it (or, harmlessly, inside)?"""
    r = _hasbv.get(t)
    if r is None:
        if isinstance(t, (F, Poly)):
            r = any(has_bv(g) for g in t.args if isinstance(g, (F, Poly))) if isinstance(t, F) else \
                any(has_bv(a) for m, _ in t.terms for a, _e in m)
        elif t.kind == "bv":
            r = True
        else:
            r = any(has_bv(p) if isinstance(p, (F, Poly)) else isinstance(p, tuple) and any(has_bv(q) for q in p) for p in t.args)
        _hasbv[t] = r
    return r


def _closed_atoms(t, out):
    """index-like atoms inside a binder that do not depend on the bound variable"""
    if isinstance(t, F):
        for g in t.args:
            if isinstance(g, (F, Poly)):
                _closed_atoms(g, out)
        return
    for m, _ in t.terms:
        for a, _e in m:
            if a.kind == "sel":
                if a.args[0].startswith(("perm!", "where!", "rank!")) and not has_bv(a):
                    all_atoms(P(a), out)
                for p in a.args[1]:
                    _closed_atoms(p, out)
            else:
                for p in a.args:
                    if isinstance(p, (F, Poly)):
                        _closed_atoms(p, out)
                    elif isinstance(p, tuple):
                        for q in p:
                            _closed_atoms(q, out)


_ROUNDS = 2
_busy = set()


_syn = {}


def syn_sign(p):
    """'pos' / 'nonneg' / None from the shape of p and unconditional facts of arrays alone"""
    if p in _syn:
        return _syn[p]
    _syn[p] = None
    r = _syn_sign(p)
    _syn[p] = r
    return r


def _syn_sign(p):
    if p is ZERO:
        return "nonneg"
    pos = False
    for m, c in p.terms:
        if c < 0:
            return None
        ap = True
        for a, e in m:
            k = a.kind
            s = None
            if k == "app" and a.args[0] in ("exp", "exp_approx"):
                s = "pos"
            elif k == "ind" or (k == "app" and a.args[0] in ("abs", "sqrt")):
                s = "nonneg"
            elif k == "paren":
                s = syn_sign(a.args[0])
            elif k == "sum":
                s = syn_sign(a.args[2]) and None
            elif k == "sel":
                inf = ARR.get(a.args[0])
                if inf and inf.facts:
                    fs = [g for f in inf.facts(a.args[1]) for g in (f.args if f.op == "and" else (f,))]
                    if (P(0) < P(a)) in fs:
                        s = "pos"
                    elif (P(a) >= P(0)) in fs:
                        s = "nonneg"
            if s is None and e % 2 == 0:
                s = "nonneg"
            if s is None:
                return None
            ap = ap and s == "pos"
        pos = pos or ap
    return "pos" if pos else "nonneg"


DUMP = False


def _indexlike(a):
    """the terms at which a minimum/maximum over an index range is instantiated"""
    if a.kind == "sel":
        return a.args[0].startswith(("perm!", "where!"))
    return a.kind == "var" and a.args[0].startswith("fa")


def red_at(a, t):
    kind, x, body, lo, hi = open_red(a)
    b = subst(body, {x: t})
    return Implies(And(lo <= t, t < hi), P(a) <= b if kind == "min" else b <= P(a))


_redsel = {}


def red_match(a, b):
    """instances of the minimum/maximum a at the indices at which b reads the array it is taken over"""
    r = _redsel.get(a)
    if r is None:
        kind, x, body, lo, hi = open_red(a)
        at = body.as_atom()
        r = _redsel[a] = (at.args[0], [q.as_atom() is x for q in at.args[1]].index(True)) if at is not None and at.kind == "sel" and any(
            q.as_atom() is x for q in at.args[1]) else ()
    if r and b.args[0] == r[0]:
        return [red_at(a, b.args[1][r[1]])]
    return []


class Ctx:
    """immutable chain of facts"""

    def __init__(self, parent=None, facts=()):
        self.parent = parent
        self.facts = tuple(facts)
        self.memo = {}
        self.dec = {}
        self._solver = None
        self.depth = 0 if parent is None else parent.depth + 1
        self.all = (parent.all if parent else ()) + tuple(self._flat(self.facts))
        self.allset = set(self.all)
        self.kids = {}

    @staticmethod
    def _flat(fs):
        for f in fs:
            if f.op == "and":
                yield from Ctx._flat(f.args)
            elif f is not TRUE:
                yield f

    def extend(self, *fs):
        fs = tuple(f for f in (B(f) for f in fs) if f is not TRUE and f not in self.allset)
        if not fs:
            return self
        k = self.kids.get(fs)
        if k is None:
            k = Ctx(self, fs)
            self.kids[fs] = k
        return k

    # -- z3
    def solver(self):
        if self._solver is None:
            s = z3.Solver()
            s.set("timeout", Z3_TIMEOUT)
            seen = set()
            for f in self.all:
                s.add(z_f(f))
            self._assert_facts(s, self.all, seen)
            self._solver = (s, seen)
        return self._solver

    def _assert_facts(self, s, forms, seen):
        todo = set()
        for f in forms:
            all_atoms(f, todo)
        for _ in range(_ROUNDS):
            new = set()
            for a in todo:
                if a in seen:
                    continue
                seen.add(a)
                if a.kind == "sel" and a.args[0] in MONO:
                    for b in seen:
                        if b is not a and b.kind == "sel" and b.args[0] == a.args[0]:
                            x, y = a.args[1][0], b.args[1][0]
                            d = (x - y).const()
                            if d is None or d <= 0:
                                s.add(z_f(Implies(x <= y, P(a) <= P(b))))
                            if d is None or d > 0:
                                s.add(z_f(Implies(y <= x, P(b) <= P(a))))
                gs = list(self.atom_facts(a))
                if a.kind == "red" and a.args[2] in ("min", "max"):
                    gs += [red_at(a, P(b)) for b in seen if _indexlike(b)]
                    gs += [g for b in seen if b.kind == "sel" for g in red_match(a, b)]
                    gs.append(red_at(a, a.args[4]))
                elif _indexlike(a):
                    gs += [red_at(b, P(a)) for b in seen if b.kind == "red" and b.args[2] in ("min", "max")]
                if a.kind == "sel":
                    gs += [g for b in seen if b.kind == "red" and b.args[2] in ("min", "max") for g in red_match(b, a)]
                for g in gs:
                    if g is TRUE:
                        continue
                    if DUMP:
                        print("  FACT", g)
                    s.add(z_f(g))
                    new |= all_atoms(g)
            todo = new - seen
            if not todo:
                break

    def atom_facts(self, a):
        k = a.kind
        if k == "sel":
            inf = ARR.get(a.args[0])
            if inf and inf.facts:
                yield from inf.facts(a.args[1])
        elif k == "fdiv":
            p, q = a.args
            r = p - q * P(a)
            yield Implies(P(0) < q, And(r >= P(0), r < q))
            # p>=0, q>0 -> quotient >= 0
            yield Implies(And(P(0) < q, p >= P(0)), P(a) >= P(0))
        elif k == "floor":
            yield And(P(a) <= a.args[0], a.args[0] < P(a) + 1)
        elif k == "app":
            fn = a.args[0]
            if fn in ("exp", "exp_approx"):
                yield P(0) < P(a)
            elif fn == "sqrt":
                yield P(a) >= P(0)
                yield Implies(a.args[1] >= P(0), eq0(P(a) * P(a) - a.args[1]))
            elif fn == "abs":
                yield P(a) >= P(0)
        elif k == "sum":
            sg = syn_sign(a.args[2])
            if sg is not None:
                x, body, lo, hi = open_sum(a)
                if sg == "pos":
                    yield Implies(lo < hi, P(a) > P(0))
                yield Implies(lo <= hi, P(a) >= P(0))
                if body.is_const() is False and self._is01(body):
                    yield Implies(lo <= hi, P(a) <= hi - lo)
            yield Implies(eq0(a.args[3] - a.args[4]), eq0(P(a)))
        elif k == "red":
            kind, x, body, lo, hi = open_red(a)
            if kind == "argmax" or kind == "argmin":
                yield Implies(lo < hi, And(lo <= P(a), P(a) < hi))

    def _is01(self, body):
        return all(at.kind == "ind" for m, c in body.terms for at, e in m) and len(body.terms) == 1

    def sum_sign(self, a):
        key = ("ss", a)
        if key in self.memo:
            return self.memo[key]
        if a in _busy or len(_busy) > 2:
            return None
        self.memo[key] = None
        _busy.add(a)
        try:
            x, body, lo, hi = open_sum(a)
            c = self.extend(lo <= P(x), P(x) < hi)
            r = None
            if c.pos(body):
                r = "pos"
            elif c.nonneg(body):
                r = "nonneg"
        finally:
            _busy.discard(a)
        self.memo[key] = r
        return r

    # -- sign analysis (syntactic, sound)
    def nonneg(self, p):
        return self._sign(p, False)

    def pos(self, p):
        return self._sign(p, True)

    def _sign(self, p, strict):
        key = ("sg", p, strict)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        r = self._sign0(p, strict)
        self.memo[key] = r
        return r

    def _sign0(self, p, strict):
        if p is ZERO:
            return not strict
        anypos = False
        ok = True
        for m, c in p.terms:
            if c < 0:
                ok = False
                break
            allpos = True
            for a, e in m:
                if e % 2 == 0:
                    if strict and not self._apos(a):
                        allpos = False
                    continue
                if self._apos(a):
                    continue
                allpos = False
                if not self._anonneg(a):
                    ok = False
                    break
            if not ok:
                break
            anypos = anypos or allpos
        if ok and (anypos or not strict):
            return True
        # quick z3
        return self.entails((P(0) < p) if strict else (p >= P(0)), quick=True)

    def _apos(self, a):
        key = ("ap", a)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        r = False
        if a.kind == "app" and a.args[0] in ("exp", "exp_approx"):
            r = True
        elif a.kind == "paren":
            r = self.pos(a.args[0])
        elif a.kind == "sum":
            r = self.sum_sign(a) == "pos" and self.entails(a.args[3] < a.args[4], quick=True)
        elif a.kind in ("var", "sel", "fdiv", "bv"):
            r = self.entails(P(0) < P(a), quick=True)
        self.memo[key] = r
        return r

    def _anonneg(self, a):
        key = ("an", a)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        r = False
        if a.kind == "ind" or (a.kind == "app" and a.args[0] in ("exp", "exp_approx", "abs", "sqrt")):
            r = True
        elif a.kind == "paren":
            r = self.nonneg(a.args[0])
        elif a.kind == "sum":
            r = self.sum_sign(a) is not None and self.entails(a.args[3] <= a.args[4], quick=True)
        elif a.kind in ("var", "sel", "fdiv", "bv"):
            r = self.entails(P(a) >= P(0), quick=True)
        self.memo[key] = r
        return r

    # -- entailment
    def entails(self, f, quick=False):
        f = B(f)
        if f is TRUE:
            return True
        if f in self.allset:
            return True
        key = (f, quick)
        r = self.dec.get(key)
        if r is not None:
            return r
        if quick and self.dec.get((f, False)):
            return True
        r = self._z3_entails(f, 400 if quick else Z3_TIMEOUT)
        self.dec[key] = r
        return r

    def _z3_entails(self, f, timeout):
        if f.op == "and":
            return all(self.entails(g) for g in f.args)
        s, seen0 = self.solver()
        t0 = time.time()
        s.set("timeout", timeout)
        s.push()
        try:
            seen = set(seen0)
            self._assert_facts(s, [f], seen)
            s.add(z3.Not(z_f(f)))
            STATS["z3_queries"] += 1
            r = s.check()
        finally:
            s.pop()
            STATS["z3_time"] += time.time() - t0
        if r == z3.unknown:
            STATS["z3_unknown"] += 1
        return r == z3.unsat

    def consistent(self, f=TRUE, timeout=None):
        """is ctx /\\ f possible (False only if z3 proves it is not)"""
        f = B(f)
        if f is FALSE:
            return False
        return not self.entails(Not(f)) if f is not TRUE else not self.entails(FALSE)

    def model_of_negation(self, f):
        s, seen0 = self.solver()
        s.push()
        try:
            seen = set(seen0)
            self._assert_facts(s, [f], seen)
            s.add(z3.Not(z_f(f)))
            s.set("timeout", 4000)
            r = s.check()
            if r == z3.sat:
                return "sat", str(s.model())[:4000]
            return str(r), ""
        finally:
            s.pop()


# ------------------------------------------------------------------ simplification
def simp(p, ctx):
    if isinstance(p, F):
        return simp_f(p, ctx)
    r = ctx.memo.get(p)
    if r is not None:
        return r
    out = p
    for _ in range(4):
        prev = out
        out = ZERO
        for m, c in prev.terms:
            out = out + _simp_mono(m, c, ctx)
        if len(out.terms) > 1:
            out = _combine_sums(_consecutive(out))
        if out is prev:
            break
    ctx.memo[p] = out
    ctx.memo[out] = out
    return out


def simp_f(f, ctx):
    if f in (TRUE, FALSE):
        return f
    if f in ctx.allset:
        return TRUE
    if f.op in ("lt0", "eq0"):
        q = simp(f.args[0], ctx)
        g = lt0(q) if f.op == "lt0" else eq0(q)
        if g in (TRUE, FALSE):
            return g
        if MONO and g.op == "lt0":
            h = own_form(g, ctx)
            if h is not None:
                return simp_f(h, ctx) if h is not g else g
        if g.op == "eq0":
            h = _digits(g.args[0], ctx)
            if h is not None:
                return simp_f(h, ctx)
        return decide(g, ctx)
    if f.op == "bvar":
        return decide(f, ctx)
    args = [simp_f(g, ctx) for g in f.args]
    return {"and": And, "or": Or, "not": Not}[f.op](*args)


def own_form(g, ctx):
    """q < ptr[t]  <=>  owner(q) < t   for 0 <= q < total, 0 <= t <= rows"""
    p = g.args[0]
    for m, c in p.terms:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "sel" and abs(c) == 1 and m[0][0].args[0] in MONO:
            a = m[0][0]
            last, own, total = MONO[a.args[0]]
            rest = p - P(a) * P(c)
            if a.args[0] in rest.deep:
                continue
            t = a.args[1][0]
            q = rest if c == -1 else -rest - 1
            if ctx.entails(And(q >= P(0), q < total, t >= P(0), t <= last), quick=True):
                o = simp(sel(own, [q], "I"), ctx)
                return (o < t) if c == -1 else (t <= o)
    return None


def _digits(p, ctx):
    """(u mod q) - (w mod q) + q*X = 0  <=>  X = 0 and u mod q = w mod q   (q > 0, integers)"""
    if not p.is_int:
        return None
    fl = sorted(_fdiv_in_monos(p), key=lambda a: a.id)
    for b in fl:
        u, q = b.args
        same = [c for c in fl if c.args[1] is q]
        if not 1 <= len(same) <= 2:
            continue
        rs = []
        for c in same:
            l = linear_in(p, c)
            if l is None:
                break
            co = l[0]
            if co is q:
                rs.append((-1, c))
            elif co is -q:
                rs.append((1, c))
            else:
                break
        if len(rs) != len(same) or (len(rs) == 2 and rs[0][0] == rs[1][0]):
            continue
        R = ZERO
        for sg, c in rs:
            R = R + (c.args[0] - q * P(c)) * P(sg)
        rest = p - R
        X = fdiv(rest, q)
        if any(a.kind == "fdiv" for m, _ in X.terms for a, _e in m) or X * q is not rest or not ctx.entails(P(0) < q, quick=True):
            continue
        if X is ZERO and len(rs) <= 2:
            return None
        return And(eq0(X), eq0(R))
    return None


def _fdiv_in_monos(p):
    return {a for m, _ in p.terms for a, e in m if a.kind == "fdiv"}


def own_rewrite(pn, own):
    def f(args, ctx):
        q = args[0]
        seen = set()
        for a in all_atoms(q):
            if a.kind == "sel" and a.args[0] == pn:
                s = a.args[1][0]
                seen.add(s)
                if ctx.entails(And(P(a) <= q, q < sel(pn, [s + 1], "I")), quick=True):
                    return s
        x = q.as_atom()
        if x is not None:       # the innermost facts about a summation variable: ptr[s] <= x < ptr[s+1]
            for g in reversed(ctx.all):
                if g.op != "lt0":
                    continue
                c = (g.args[0] + P(x) + ONE).as_atom()
                if c is not None and c.kind == "sel" and c.args[0] == pn and c.args[1][0] not in seen:
                    s = c.args[1][0]
                    seen.add(s)
                    if ctx.entails(And(P(c) <= q, q < sel(pn, [s + 1], "I")), quick=True):
                        return s
        return None
    return f


def decide(g, ctx):
    if g in ctx.allset:
        return TRUE
    if Not(g) in ctx.allset:
        return FALSE
    if not _relevant(g, ctx):
        return g
    if ctx.entails(g, quick=True):
        return TRUE
    if ctx.entails(Not(g), quick=True):
        return FALSE
    return g


def _relevant(g, ctx):
    return True


def _simp_mono(m, c, ctx):
    # 1. indicators first: they guard the rest
    inds = [a for a, e in m if a.kind == "ind"]
    rest = [(a, e) for a, e in m if a.kind != "ind"]
    guard = ctx
    out = P(c)
    for a in inds:
        f = a.args[0]
        g = simp_f(f, guard)
        if g is FALSE:
            return ZERO
        if g is TRUE:
            continue
        out = out * ind(g)
        guard = guard.extend(g)
    if len(inds) > 1 and len(out.terms) == 1:
        # an indicator implied by a later one
        (mm, cc), = out.terms
        weak = set()
        for a, e in mm:
            if a.kind == "ind" and a.args[0].op == "lt0":
                for b, e2 in mm:
                    if b is not a and b.kind == "ind" and b.args[0].op == "lt0":
                        k = (b.args[0].args[0] - a.args[0].args[0]).const()
                        if k is not None and k >= 0:
                            weak.add(a)
                        elif k is None and a.deep == b.deep and b not in weak and ctx.extend(b.args[0]).entails(a.args[0], quick=True):
                            weak.add(a)
        if weak:
            out = T._mk_poly({tuple((a, e) for a, e in mm if a not in weak): cc})
    if inds and guard is not ctx and not guard.consistent():
        return ZERO
    # equality indicators: rewrite the eliminated variable in the remaining factors
    sub = {}
    for mm, cc in out.terms:
        if len(out.terms) == 1:
            for a, e in mm:
                if a.kind == "ind" and a.args[0].op == "eq0":
                    s = solve_any(a.args[0].args[0], sub) or solve_term(a.args[0].args[0], sub)
                    if s:
                        sub[s[0]] = s[1]
    keys = set()
    for a in sub:
        keys |= {a} if a.kind == "var" else a.deep
    if sub and len(inds) > 1:
        (mm, cc), = out.terms
        if any(a.kind == "ind" and (a.deep & keys) for a, e in mm):
            # progressively: an indicator may only be judged under those already kept
            out, g2 = P(cc), ctx
            defs = [a for a, e in mm if a.args[0].op == "eq0" and _defines(a.args[0].args[0], sub)]
            for a in defs:
                out = out * P(a)
                g2 = g2.extend(a.args[0])
            for a, e in mm:
                if a in defs:
                    continue
                f = simp_f(subst(a.args[0], sub) if a.deep & keys else a.args[0], g2)
                out = out * ind(f)
                if f is FALSE:
                    return ZERO
                g2 = g2.extend(f)
            guard = g2
    for a, e in rest:
        v = P(a)
        if sub and (a.deep & keys):
            v = subst(v, sub)
        va = v.as_atom()
        w = simp_atom(va, guard) if va is not None else simp(v, guard)
        out = out * (w ** e if e >= 0 else poly_inv(w) ** (-e))
    return out


def solve_any(p, used):
    """p = 0 solved for a plain variable of coefficient +-1 (the youngest one): (atom, poly)"""
    best = None
    for m, c in p.terms:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "var" and abs(c) == 1:
            a = m[0][0]
            if a in used or a.sort != "I":
                continue
            rest = p - P(a) * P(c)
            if a in rest.deep:
                continue
            if any(u in rest.deep for u in used):
                continue
            if best is None or a.id > best[0].id:
                best = (a, -rest * P(c))
    return best


def solve_term(p, used):
    """p = 0 solved for a floor quotient or an integer array element of coefficient +-1"""
    best = None
    for m, c in p.terms:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ("fdiv", "sel") and m[0][0].sort == "I" and abs(c) == 1:
            a = m[0][0]
            rest = p - P(a) * P(c)
            inner = all_atoms(rest)
            if a in used or a in inner or any(u in inner or u in a.deep for u in used):
                continue
            if a.kind == "sel" and not rest.is_int:
                continue
            key = (a.kind == "fdiv", a.id)
            if best is None or key > best[0]:
                best = (key, a, -rest * P(c))
    return best and best[1:]


def _defines(p, sub):
    """is p = 0 the equation one of the substitutions came from"""
    return any(p is P(a) - e or p is e - P(a) for a, e in sub.items())


def simp_atom(a, ctx):
    r = ctx.memo.get(a)
    if r is not None:
        return r
    k = a.kind
    if k in ("var", "bv"):
        r = P(a)
    elif k == "ind":
        r = ind(simp_f(a.args[0], ctx))
    elif k == "sum":
        r = simp_sum(a, ctx)
    elif k == "red":
        kind, x, body, lo, hi = open_red(a)
        lo, hi = simp(lo, ctx), simp(hi, ctx)
        r = mk_red(kind, x, lo, hi, simp(body, ctx.extend(lo <= P(x), P(x) < hi)))
    elif k == "fdiv":
        p, q = simp(a.args[0], ctx), simp(a.args[1], ctx)
        r = fdiv(p, q)
        b = r.as_atom()
        if b is not None and b.kind == "fdiv":
            r = simp_fdiv(b.args[0], b.args[1], ctx)
    elif k == "sel":
        args = tuple(simp(q, ctx) for q in a.args[1])
        inf = ARR.get(a.args[0])
        r = None
        if inf is not None and inf.rewrite is not None:
            r = inf.rewrite(args, ctx)
            if r is not None:
                r = simp(P(r), ctx)
        if r is None:
            r = sel(a.args[0], args, a.sort)
    else:
        r = rebuild(a, lambda q: simp(q, ctx))
        if k == "app" and a.args[0] == "ln":
            r = simp_ln(r, ctx)
        if k == "app" and a.args[0] == "abs":
            b = r.as_atom()
            if b is not None and b.kind == "app" and b.args[0] == "abs":
                if ctx.nonneg(b.args[1]):
                    r = b.args[1]
                elif ctx.nonneg(-b.args[1]):
                    r = -b.args[1]
    ctx.memo[a] = r
    return r


def simp_ln(r, ctx):
    """ln(product of positives) -> sum of logarithms"""
    b = r.as_atom()
    if b is None or b.kind != "app" or b.args[0] != "ln":
        return r
    q = b.args[1]
    if len(q.terms) == 1:
        (m, c), = q.terms
        if len(m) > 1 or (m and (m[0][1] != 1 or c != 1)):
            if c > 0 and all(ctx._apos(a) for a, e in m):
                out = ln(P(c))
                for a, e in m:
                    out = out + ln(P(a)) * P(e)
                return out
    return r


def simp_fdiv(p, q, ctx):
    if ctx.entails(And(p >= P(0), p < q), quick=True):
        return ZERO
    if q.const() is None and ctx.entails(And(q <= p, p < q * P(2)), quick=True):
        return ONE
    # split p = p1 + p2 where q divides p1's monomials already done by fdiv(); try 0<=rest<q on sub-sums
    return P(T._mk_atom("fdiv", (p, q), "I"))


def simp_sum(a, ctx):
    x, body, lo, hi = open_sum(a)
    lo, hi = simp(lo, ctx), simp(hi, ctx)
    d = simp(hi - lo, ctx)
    if d is ZERO:
        return ZERO
    if len(lo.terms) > 1 or lo is ZERO and len(hi.terms) > 1:
        s = array_offset(body, x)
        if s is not None and (len((lo + s).terms) <= len(lo.terms) - len(s.terms) if lo is not ZERO else s.as_atom() is not None and (hi + s).as_atom() is not None):
            body = subst(body, {x: P(x) - s})
            lo, hi = lo + s, hi + s
    inner = ctx.extend(lo <= P(x), P(x) < hi)
    body = simp(body, inner)
    out = ZERO
    terms = dict(body.terms)
    if len(terms) > 1:
        out, terms = _telescoping(x, lo, hi, terms)
    for m, c in terms.items():
        out = out + _sum_mono(x, lo, hi, m, c, ctx, inner)
    b = out.as_atom()
    if b is not None and b.kind == "sum":
        inf = None
        x, body, lo, hi = open_sum(b)
        at = body.as_atom()
        if at is not None and at.kind == "sel":
            inf = ARR.get(at.args[0])
            if inf and inf.sumrule:
                r = inf.sumrule(x, at.args[1], lo, hi, ctx)
                if r is not None:
                    return simp(P(r), ctx)
    return out


def array_offset(body, j, x=None):
    """s in the first array index j + s of the body (s mentions x, or is at least not a number)"""
    seen = set()

    def visit(p):
        for m, _ in p.sorted_terms():
            for a, _e in m:
                if a in seen or j not in a.deep or (x is not None and x not in a.deep):
                    continue
                seen.add(a)
                for q in (a.args[1] if a.kind == "sel" else a.args):
                    if isinstance(q, F):
                        for g in q.args:
                            if isinstance(g, Poly):
                                r = visit(g)
                                if r is not None:
                                    return r
                    if not isinstance(q, Poly):
                        continue
                    if a.kind == "sel":
                        s = solve_for(q, j)
                        if s and s[0] == 1 and (x is None or x in s[1].deep) and not has_bv(s[1]):
                            s = s[1] - P(s[1].constpart())
                            if s is not ZERO:
                                return s
                            continue
                    r = visit(q)
                    if r is not None:
                        return r
        return None
    return visit(body)


def _telescoping(x, lo, hi, terms):
    """pairs c*f(x+1) - c*f(x) are summed directly"""
    out = ZERO
    todo = sorted(terms.items(), key=lambda t: T._mk_poly({t[0]: Fraction(1)}).id)
    left = dict(terms)
    for m, c in todo:
        if m not in left:
            continue
        f = T._mk_poly({m: c})
        if x not in f.deep:
            continue
        g = -subst(f, {x: P(x) + 1})
        if len(g.terms) == 1:
            (m2, c2), = g.terms
            if m2 in left and left[m2] == c2 and m2 != m:
                # terms  f(x) and -f(x+1):  sum = f(lo) - f(hi)
                del left[m], left[m2]
                out = out + subst(f, {x: lo}) - subst(f, {x: hi})
    return out, left


def _combine_sums(p):
    """sums over the same range with the same factor are merged where that telescopes"""
    groups = {}
    for m, c in p.terms:
        for a, e in m:
            if a.kind == "sum" and e == 1:
                rest = tuple((b, k) for b, k in m if b is not a)
                groups.setdefault((rest, a.args[3], a.args[4]), []).append((a, m, c))
    for (rest, lo, hi), l in groups.items():
        if len(l) < 2:
            continue
        x = fresh("s")
        body = ZERO
        old = ZERO
        for a, m, c in l:
            depth, _, b, _, _ = a.args
            body = body + subst(b, {BV(depth): P(x)}, reclose=False) * P(c)
            old = old + T._mk_poly({m: c})
        new = mk_sum(x, lo, hi, body) * T._mk_poly({rest: Fraction(1)})
        if new is not old and len(new.terms) <= len(old.terms):
            return p - old + new
    return p


def _consecutive(p):
    """m*[q<0] - m*[q+1<0]  ->  m*[q+1=0]   (integer q)"""
    while True:
        terms = dict(p.terms)
        hit = False
        for m, c in terms.items():
            for a, e in m:
                if a.kind == "ind" and a.args[0].op == "lt0" and T._is_intlike(a.args[0].args[0]):
                    q = a.args[0].args[0]
                    f2 = lt0(q + 1)
                    if f2.op != "lt0":
                        continue
                    rest = T._mk_poly({tuple((b, k) for b, k in m if b is not a): c})
                    o = rest * ind(f2)
                    if len(o.terms) != 1:
                        continue
                    (m2, c2), = o.terms
                    if terms.get(m2) == -c2:
                        p = p - T._mk_poly({m: c}) - T._mk_poly({m2: -c2}) + rest * ind(eq0(q + 1))
                        hit = True
                        break
            if hit:
                break
        if not hit:
            return p


def solve_for(p, x):
    """p=0 (or p<0) linear in x with coefficient +-1: returns (coef, rest) with p = coef*x + rest"""
    coef = None
    for m, c in p.terms:
        for a, e in m:
            if a is x:
                if len(m) == 1 and e == 1 and abs(c) == 1:
                    coef = c
                else:
                    return None
            elif x in a.deep:
                return None
    if coef is None:
        return None
    return coef, p - P(x) * P(coef)


def _sum_mono(x, lo, hi, m, c, ctx, inner):
    mono = T._mk_poly({m: c})
    if x not in mono.deep:
        return mono * (hi - lo)
    # indicator solvable for x
    for a, e in m:
        if a.kind != "ind" or x not in a.deep:
            continue
        f = a.args[0]
        if f.op == "eq0":
            s = solve_for(f.args[0], x)
            if s is not None:
                coef, rest = s
                val = -rest * P(coef)
                if ctx.entails(lo <= hi):
                    others = T._mk_poly({tuple((b, k) for b, k in m if b is not a): c})
                    r = subst(others, {x: val})
                    return simp(ind(And(lo <= val, val < hi)) * r, ctx)
        elif f.op == "lt0":
            s = solve_for(f.args[0], x)
            if s is not None:
                coef, rest = s
                others = T._mk_poly({tuple((b, k) for b, k in m if b is not a): c})
                if coef == 1:   # x + rest < 0  : x < -rest
                    cut = -rest
                    if ctx.entails(And(lo <= cut, cut <= hi)):
                        return simp(mk_sum(x, lo, cut, others), ctx)
                    if ctx.entails(lo <= cut) and ctx.entails(lo <= hi):
                        k = ind(cut < hi)
                        return simp(k * mk_sum(x, lo, cut, others) + (ONE - k) * mk_sum(x, lo, hi, others), ctx)
                    if ctx.entails(cut <= hi) and ctx.entails(lo <= hi):
                        return simp(ind(lo < cut) * mk_sum(x, lo, cut, others), ctx)
                else:           # -x + rest < 0 : x > rest, x >= rest+1
                    cut = rest + 1
                    if ctx.entails(And(lo <= cut, cut <= hi)):
                        return simp(mk_sum(x, cut, hi, others), ctx)
                    if ctx.entails(cut <= hi) and ctx.entails(lo <= hi):
                        k = ind(lo < cut)
                        return simp(k * mk_sum(x, cut, hi, others) + (ONE - k) * mk_sum(x, lo, hi, others), ctx)
                    if ctx.entails(lo <= cut) and ctx.entails(lo <= hi):
                        return simp(ind(cut < hi) * mk_sum(x, cut, hi, others), ctx)
    r = _sum_fdiv(x, lo, hi, m, c, ctx, inner)
    if r is None:
        r = _sum_spot(x, lo, hi, m, c, ctx)
    if r is not None:
        return r
    if MONO:
        r = _sum_owner(x, lo, hi, m, c, ctx)
        if r is None:
            r = _sum_rows(x, lo, hi, m, c, ctx)
        if r is None:
            r = _sum_owned(x, lo, hi, mono, ctx)
        if r is not None:
            return r
    # nested sum containing an indicator solvable for x: swap
    for a, e in m:
        if a.kind == "sum" and e == 1 and x in a.deep:
            y, b2, lo2, hi2 = open_sum(a)
            if x in lo2.deep or x in hi2.deep:
                continue
            hit = False
            for m2, c2 in b2.terms:
                for b, k in m2:
                    if b.kind == "ind" and x in b.deep and solve_for(b.args[0].args[0], x) is not None \
                            if b.kind == "ind" and b.args[0].op in ("eq0",) else False:
                        hit = True
                    if b.kind == "sum" and k == 1 and x in b.deep and _deep_hit(b, x):
                        hit = True
            # a quotient by a sum over the same range: swap, so that the shares add up
            hit = hit or _shared_out(a, x, lo, hi, ctx)
            if hit:
                others = T._mk_poly({tuple((b, k) for b, k in m if b is not a): c})
                c2 = ctx.extend(lo2 <= P(y), P(y) < hi2)
                inner_sum = simp(mk_sum(x, lo, hi, others * b2), c2)
                return simp(mk_sum(y, lo2, hi2, inner_sum), ctx)
    return mk_sum(x, lo, hi, mono)


def _shared_out(a, x, lo, hi, ctx):
    y, b2, lo2, hi2 = open_sum(a)
    if len(b2.terms) != 1 or x in lo2.deep or x in hi2.deep:
        return False
    for b, k in b2.terms[0][0] if isinstance(b2.terms, (list, tuple)) else next(iter(b2.terms))[0]:
        if b.kind != "sum":
            continue
        if k == -1 and y in b.deep and x not in b.deep and open_sum(b)[2] is lo and simp(open_sum(b)[3] - hi, ctx) is ZERO:
            return True
        if k == 1 and x in b.deep and _shared_out(b, x, lo, hi, ctx):
            return True
    return False


def _sum_owner(x, lo, hi, m, c, ctx):
    """[own(x) = e] and [own(x) < e] restrict x to the storage of a row"""
    owns = {own: (pn, last, total) for pn, (last, own, total) in MONO.items()}
    for a, e in m:
        if a.kind != "ind" or x not in a.deep or a.args[0].op not in ("eq0", "lt0"):
            continue
        p = a.args[0].args[0]
        for m2, c2 in p.terms:
            o = m2[0][0] if len(m2) == 1 and m2[0][1] == 1 else None
            if o is None or o.kind != "sel" or o.args[0] not in owns or abs(c2) != 1 or o.args[1][0].as_atom() is not x:
                continue
            rest = p - P(o) * P(c2)
            if x in rest.deep:
                continue
            pn, last, total = owns[o.args[0]]
            if not ctx.entails(And(lo >= P(0), hi <= total, lo <= hi), quick=True):
                continue
            others = T._mk_poly({tuple((b, k) for b, k in m if b is not a): c})
            if a.args[0].op == "eq0":
                r = -rest * P(c2)
                rng = And(P(0) <= r, r < last)
                L, H = sel(pn, [r], "I"), sel(pn, [r + 1], "I")
                if not ctx.entails(rng):
                    continue
                others = subst(others, {o: r})
            elif c2 == 1:                     # own(x) < -rest  <=>  x < ptr(-rest)
                r = -rest
                if not ctx.entails(And(P(0) <= r, r <= last)):
                    continue
                L, H = lo, sel(pn, [r], "I")
            else:                             # rest < own(x)  <=>  x >= ptr(rest+1)
                r = rest + ONE
                if not ctx.entails(And(P(0) <= r, r <= last)):
                    continue
                L, H = sel(pn, [r], "I"), hi
            rg = ONE
            if ctx.entails(And(lo <= L, L <= hi)):
                lo = L
            elif not ctx.entails(L <= lo):
                rg = rg * ind(L <= P(x))
            if ctx.entails(And(lo <= H, H <= hi)):
                hi = H
            elif not ctx.entails(hi <= H):
                rg = rg * ind(P(x) < H)
            return simp(mk_sum(x, lo, hi, rg * others), ctx)
    return None


def _sum_spot(x, lo, hi, m, c, ctx):
    """an indicator about a value that differs at one position"""
    for a, e in m:
        if a.kind != "ind" or x not in a.deep:
            continue
        for b in all_atoms(a.args[0]):
            if b.kind == "ind" and b.args[0].op == "eq0" and x in b.deep and solve_for(b.args[0].args[0], x) is not None:
                others = T._mk_poly({tuple((d, k) for d, k in m if d is not a): c})
                at = ind(subst(a.args[0], {b: ONE}))
                off = ind(subst(a.args[0], {b: ZERO}))
                return simp(mk_sum(x, lo, hi, others * off), ctx) + simp(mk_sum(x, lo, hi, others * P(b) * (at - off)), ctx)
    return None


def _sum_rows(x, lo, hi, m, c, ctx):
    """a sum over rows of a sum over the row's storage is a sum over the storage"""
    for a, e in m:
        if a.kind != "sum" or e != 1:
            continue
        depth, _, b, L, H = a.args
        l, h = L.as_atom(), H.as_atom()
        if l is None or h is None or l.kind != "sel" or h.kind != "sel" or l.args[0] not in MONO or l.args[0] != h.args[0]:
            continue
        if l.args[1][0].as_atom() is not x or simp(h.args[1][0] - P(x) - 1, ctx) is not ZERO:
            continue
        pn = l.args[0]
        last, own, total = MONO[pn]
        if not ctx.entails(And(ZERO <= lo, lo <= hi, hi <= last), quick=True):
            continue
        y = fresh("s")
        others = T._mk_poly({tuple((d, k) for d, k in m if d is not a): c})
        body = subst(b, {BV(depth): P(y)}, reclose=False) * others
        if x in body.deep:
            continue
        return simp(mk_sum(y, simp(sel(pn, [lo], "I"), ctx), simp(sel(pn, [hi], "I"), ctx), body), ctx)
    return None


def _sum_owned(x, lo, hi, body, ctx):
    """a sum over the storage of rows a..b of what depends on the row alone"""
    owns = {own: (pn, last, total) for pn, (last, own, total) in MONO.items()}
    o = [a for a in all_atoms(body) if a.kind == "sel" and a.args[0] in owns and x in a.args[1][0].deep]
    if len(o) != 1:
        return None
    s = o[0].args[1][0] - P(x)
    p = var("own?")
    rest = subst(body, {o[0]: P(p)})
    if x in s.deep or x in rest.deep:
        return None
    pn, last, total = owns[o[0].args[0]]
    end = []
    for q in (simp(lo + s, ctx), simp(hi + s, ctx)):
        a = q.as_atom()
        if q is ZERO or q is total:
            end.append(ZERO if q is ZERO else last)
        elif a is not None and a.kind == "sel" and a.args[0] == pn:
            end.append(a.args[1][0])
        else:
            return None
    a, b = end
    if not ctx.entails(And(ZERO <= a, a <= b, b <= last)):
        return None
    y = fresh("s")
    return simp(mk_sum(y, a, b, subst(rest, {p: P(y)}) * (sel(pn, [P(y) + 1], "I") - sel(pn, [P(y)], "I"))), ctx)


def linear_in(p, x):
    """p = coef*x + rest, x occurring nowhere else: (coef, rest)"""
    coef, rest = ZERO, ZERO
    for m, c in p.terms:
        hit = [a for a, e in m if a is x]
        if hit:
            if any((a is x and e != 1) or (a is not x and x in a.deep) for a, e in m):
                return None
            coef = coef + T._mk_poly({tuple((a, e) for a, e in m if a is not x): c})
        else:
            mono = T._mk_poly({m: c})
            if x in mono.deep:
                return None
            rest = rest + mono
    if coef is ZERO:
        return None
    return coef, rest


def _sum_fdiv(x, lo, hi, m, c, ctx, inner):
    """indicators with a symbolic coefficient, or with floor((x+r)/q), solved for x"""
    for a, e in m:
        if a.kind != "ind" or x not in a.deep or a.args[0].op != "eq0":
            continue
        p = a.args[0].args[0]
        others = T._mk_poly({tuple((b, k) for b, k in m if b is not a): c})
        # q*x + r = 0 with q > 0
        l = linear_in(p, x)
        if l is not None and l[0].is_int and l[1].is_int:
            q, r = l
            if len(q.terms) == 1 and next(iter(q.terms))[1] < 0:
                q, r = -q, -r
            if ctx.entails(P(0) < q) and ctx.entails(lo <= hi):
                val = fdiv(-r, q)
                return simp(ind(And(eq0(q * val + r), lo <= val, val < hi)) * subst(others, {x: val}), ctx)
        # floor((x+r)/q) = e0
        fl = [b for b in _fdiv_atoms(p) if x in b.deep]
        if len(fl) == 1 and ctx.entails(lo <= hi):
            b = fl[0]
            l = linear_in(p, b)
            s = linear_in(b.args[0], x)
            q = b.args[1]
            if l is not None and s is not None and x not in q.deep and abs(s[0].const() or 0) == 1 and ctx.entails(P(0) < q):
                k, e0 = l
                sg = s[0].const()
                if x not in e0.deep and k.const() is not None and abs(k.const()) == 1:
                    val = -e0 * P(k.const())
                    u = P(x) * s[0] + s[1]
                    o2 = subst(others, {b: val})
                    if sg == 1:
                        L, H = q * val - s[1], q * val - s[1] + q
                    else:
                        L, H = s[1] - q * val - q + 1, s[1] - q * val + 1
                    rng = ONE
                    if ctx.entails(And(lo <= L, L <= hi)):
                        lo = L
                    elif not ctx.entails(L <= lo):
                        rng = rng * ind(L <= P(x))
                    if ctx.entails(And(lo <= H, H <= hi)):
                        hi = H
                    elif not ctx.entails(hi <= H):
                        rng = rng * ind(P(x) < H)
                    return simp(mk_sum(x, lo, hi, rng * o2), ctx)
                # u = q*floor(u/q) with u = s*x+r : x congruent to -s*r modulo q, within a window of length q
                u = P(x) * s[0] + s[1]
                z = p + q * P(b) - u
                z2 = p - q * P(b) + u
                if (z is ZERO or z2 is ZERO) and sg == 1 and x not in others.deep:
                    # how many multiples of q there are
                    return simp(others * (fdiv(hi - 1 + s[1], q) - fdiv(lo - 1 + s[1], q)), ctx)
                if z is ZERO or z2 is ZERO:
                    g = inner
                    for d, k2 in m:
                        if d.kind == "ind" and d is not a:
                            g = g.extend(d.args[0])
                    base = -s[1] * P(sg)
                    for L in _lower_bounds(m, x) + [lo]:
                        if g.entails(And(L <= P(x), P(x) < L + q)):
                            w = L + mod(base - L, q)
                            return simp(ind(And(lo <= w, w < hi)) * subst(others, {x: w}), ctx)
    return None


def _fdiv_atoms(p):
    return {a for m, _ in p.terms for a, e in m if a.kind == "fdiv"}


def _lower_bounds(m, x):
    out = []
    for a, e in m:
        if a.kind == "ind" and x in a.deep and a.args[0].op == "lt0":
            s = solve_for(a.args[0].args[0], x)
            if s is not None:
                if s[0] == -1:
                    out.append(s[1] + 1)
                else:
                    out.append(-s[1])
    return out


def _deep_hit(a, x):
    y, b2, lo2, hi2 = open_sum(a)
    if x in lo2.deep or x in hi2.deep:
        return False
    for m2, c2 in b2.terms:
        for b, k in m2:
            if b.kind == "ind" and x in b.deep and b.args[0].op == "eq0" and solve_for(b.args[0].args[0], x) is not None:
                return True
            if b.kind == "sum" and k == 1 and x in b.deep and _deep_hit(b, x):
                return True
    return False


# ------------------------------------------------------------------ equality
def clear_denominators(p):
    """multiply by all negative powers (assumed non-zero divisors) and expand parens"""
    for _ in range(6):
        need = {}
        for m, c in p.terms:
            for a, e in m:
                if e < 0:
                    need[a] = max(need.get(a, 0), -e)
        if not need:
            return p
        q = ZERO
        for m, c in p.terms:
            d = dict(m)
            t = P(c)
            for a, n in need.items():
                k = d.pop(a, 0) + n
                if a.kind == "paren":
                    t = t * (a.args[0] ** k)
                elif k:
                    t = t * (P(a) ** k)
            t = t * T._mk_poly({tuple(sorted(d.items(), key=lambda z: z[0].id)): Fraction(1)})
            q = q + t
        p = q
    return p


def telescope(p, ctx):
    """sum(lo,hi,f) -> F_f(hi)-F_f(lo) with constant shifts of the argument and of f normalised"""
    out = ZERO
    for m, c in p.terms:
        t = P(c)
        for a, e in m:
            if a.kind == "sum" and e >= 1:
                t = t * (_antidiff(a) ** e)
            else:
                t = t * T._mk_poly({((a, e),): Fraction(1)})
        out = out + t
    return out


def _antidiff(a):
    x, body, lo, hi = open_sum(a)
    s = array_offset(body, x)
    if s is not None:
        body = subst(body, {x: P(x) - s})
        lo, hi = lo + s, hi + s
    sh = _shift_of(body, x)
    if sh:
        body = subst(body, {x: P(x) - P(sh)})
        lo, hi = lo + P(sh), hi + P(sh)
    return _F(x, body, hi) - _F(x, body, lo)


def _F(x, body, arg):
    k = arg.constpart()
    base = arg - P(k)
    depth = body.maxbv + 1
    b = subst(body, {x: P(T.BV(depth))}, reclose=False)
    r = P(T._mk_atom("app", ("AD", b, base), "R"))
    if base is ZERO:
        r = ZERO
    k = int(k)
    if abs(k) > 8:
        return P(T._mk_atom("app", ("AD", b, arg), "R"))
    if k > 0:
        for i in range(k):
            r = r + subst(body, {x: base + P(i)})
    else:
        for i in range(-k):
            r = r - subst(body, {x: base - P(i + 1)})
    return r


def _shift_of(body, x):
    best = None

    def visit(p):
        nonlocal best
        for m, c in p.terms:
            for a, e in m:
                if x not in a.deep:
                    continue
                if a.kind == "sel":
                    for q in a.args[1]:
                        s = solve_for(q, x)
                        if s and s[0] == 1:
                            k = s[1].constpart()
                            if best is None or k < best:
                                best = k
                        elif x in q.deep:
                            visit(q)
                else:
                    for q in a.args:
                        if isinstance(q, Poly):
                            visit(q)
                        elif isinstance(q, F):
                            for g in q.args:
                                if isinstance(g, Poly):
                                    visit(g)

    visit(body)
    return int(best) if best else 0


def prove_zero(p, ctx, depth=4):
    """p = 0 under ctx?  -> (bool, how)"""
    if p is ZERO:
        return True, "normal form"
    q = simp(p, ctx)
    if q is ZERO:
        return True, "normal form"
    q2 = simp(clear_denominators(q), ctx)
    if q2 is ZERO:
        return True, "normal form"
    q3 = q2
    for _ in range(3):
        q5 = simp(clear_denominators(telescope(q3, ctx)), ctx)
        if q5 is ZERO:
            return True, "normal form"
        if q5 is q3:
            break
        q3 = q5
    for f in ctx.all:       # equalities of the context as rewrite v := e
        if f.op == "eq0":
            s = solve_any(f.args[0], {})
            if s and s[0] in q2.deep:
                q4 = simp(subst(q2, {s[0]: s[1]}), ctx)
                if q4 is ZERO:
                    return True, "normal form"
                if q4 is not q2:
                    r = prove_zero(q4, ctx, depth - 1) if depth > 0 else (False, "")
                    if r[0]:
                        return r
    if ctx.entails(eq0(q3)):
        return True, "z3"
    if depth > 0:
        # case split on a remaining indicator
        inds = sorted([a for a in _ind_atoms(q2)], key=lambda a: a.id)
        if inds:
            f = inds[0].args[0]
            c1, c2 = ctx.extend(f), ctx.extend(Not(f))
            r1 = prove_zero(q2, c1, depth - 1) if c1.consistent() else (True, "z3")
            if r1[0]:
                r2 = prove_zero(q2, c2, depth - 1) if c2.consistent() else (True, "z3")
                if r2[0]:
                    return True, "case split+" + ("z3" if "z3" in (r1[1] + r2[1]) else "normal form")
    return False, show(q2 if DBG else q3)[:20000 if DBG else 1500]


def _ind_atoms(p):
    s = set()
    for m, _ in p.terms:
        for a, e in m:
            if a.kind == "ind":
                s.add(a)
            elif a.kind == "sel":
                for q in a.args[1]:
                    s |= _ind_atoms(q)
            elif a.kind == "app":
                for q in a.args[1:]:
                    s |= _ind_atoms(q)
            elif a.kind == "paren":
                s |= _ind_atoms(a.args[0])
            elif a.kind == "fdiv":
                s |= _ind_atoms(a.args[0]) | _ind_atoms(a.args[1])
    return s


def _floor_free(g, ctx):
    """floor(u/q) < e  <=>  u < e*q   and   e < floor(u/q)  <=>  e*q + q <= u   (q > 0, integers)"""
    neg = g.op == "not"
    a = g.args[0] if neg else g
    if a.op != "lt0":
        return None
    p = a.args[0]
    for m, c in p.sorted_terms():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "fdiv" and abs(c) == 1:
            b = m[0][0]
            u, q = b.args
            rest = p - P(b) * P(c)
            if b in rest.deep or not rest.is_int or not ctx.entails(P(0) < q, quick=True):
                continue
            for b2 in _fdiv_atoms(rest):      # exact quotients are put back as e where q*e = u2 is known
                u2, q2 = b2.args
                for f in ctx.all:
                    if f.op == "eq0":
                        for k in (1, -1):
                            d = f.args[0] * P(k) + u2
                            e = fdiv(d, q2)
                            if e * q2 == d and not any(t.kind == "fdiv" for t in all_atoms(e)):
                                rest = subst(rest, {b2: e})
            h = (u < -rest * q) if c == 1 else (rest * q + q <= u)
            h = simp_f(h, ctx)
            return Not(h) if neg else h
    return None


def sum_nonneg(q, ctx, depth):
    """q >= 0 because, range by range, the sum of the summands is"""
    groups, rest = {}, ZERO
    for m, c in q.terms:
        sums = [a for a, e in m if a.kind == "sum" and e == 1]
        if len(sums) != 1:
            rest = rest + T._mk_poly({m: c})
            continue
        a = sums[0]
        groups.setdefault((a.args[3], a.args[4]), []).append((a, T._mk_poly({tuple((b, k) for b, k in m if b is not a): c})))
    if not groups or max(map(len, groups.values())) < 2:
        return False
    if rest is not ZERO and not ctx.nonneg(rest):
        return False
    for (lo, hi), l in groups.items():
        x = fresh("s")
        body = ZERO
        for a, k in l:
            depth_, _, b, _, _ = a.args
            body = body + subst(b, {BV(depth_): P(x)}, reclose=False) * k
        c = ctx.extend(lo <= P(x), P(x) < hi)
        if not c.consistent():
            continue
        if not prove(body >= ZERO, c, depth)[0]:
            return False
    return True


def share_nonneg(q, ctx):
    """q >= 0, once multiplied by a positive sum that divides part of it, because a sum of non-negative terms is at least any one of them"""
    for a in sorted({a for m, c in q.terms for a, e in m if e == -1 and (a.kind == "sum" or a.kind == "paren" and any(b.kind == "sum" for b in all_atoms(a.args[0])))}, key=lambda a: a.id):
        den = a.args[0] if a.kind == "paren" else P(a)
        if not ctx.pos(den):
            continue
        r = ZERO
        for m, c in q.terms:
            if any(b is a and e == -1 for b, e in m):
                r = r + T._mk_poly({tuple(x for x in m if x[0] is not a): c})
            else:
                r = r + T._mk_poly({m: c}) * den
        r = simp(r, ctx)
        ks = {b for m, c in r.terms if c < 0 for b0, _ in m for b in all_atoms(P(b0)) if b.kind == "var" and b.sort == "I"}
        for k in sorted(ks, key=lambda b: b.id):
            low, used = ZERO, False
            for m, c in r.terms:
                p = T._mk_poly({m: c})
                for b, e in m if c > 0 else ():
                    if b.kind == "sum" and e == 1 and ctx.entails(And(b.args[3] <= P(k), P(k) < b.args[4])) and ctx.sum_sign(b) is not None \
                            and ctx.nonneg(T._mk_poly({tuple(x for x in m if x[0] is not b): c})):
                        p = T._mk_poly({tuple(x for x in m if x[0] is not b): c}) * subst(b.args[2], {BV(b.args[0]): P(k)}, reclose=False)
                        used = True
                        break
                low = low + p
            if used and ctx.nonneg(simp(low, ctx)):
                return True
    return False


def prove(f, ctx, depth=4):
    """-> (bool, backend or reason)"""
    f = B(f)
    if f is TRUE:
        return True, "normal form"
    if f in ctx.allset:
        return True, "hypothesis"
    if f.op == "and":
        how = set()
        for g in f.args:
            ok, h = prove(g, ctx, depth)
            if not ok:
                return False, h
            how.add(h)
        return True, "+".join(sorted(how))
    if f.op == "eq0":
        ok, h = prove_zero(f.args[0], ctx, depth)
        if ok:
            return ok, h
        return False, "cannot prove %s" % show(f.args[0])[:20 if DBG else 800] + "  ; residue: " + h
    if os.environ.get("PDBG") and os.environ["PDBG"] in show_f(f):
        print("PROVE", depth, f.op, show_f(simp_f(f, ctx))[:3000], file=sys.stderr)
    if f.op == "or":
        # assume the negation of all but the last equality-like disjunct
        for g in f.args:
            rest = [Not(h) for h in f.args if h is not g]
            c = ctx.extend(*rest)
            if not c.consistent():
                return True, "z3"
            ok, h = prove(g, c, max(0, depth - 1)) if depth > 0 else (False, "")
            if ok:
                return True, h
        return (True, "z3") if ctx.entails(f) else (False, "cannot prove " + show_f(f)[:800])
    g = simp_f(f, ctx)
    if g is TRUE:
        return True, "normal form+z3"
    if f.op == "lt0":
        if ctx.pos(-simp(f.args[0], ctx)):
            return True, "sign analysis"
    if f.op == "not" and f.args[0].op == "lt0":
        if ctx.nonneg(simp(f.args[0].args[0], ctx)):
            return True, "sign analysis"
    if ctx.entails(g):
        return True, "z3"
    if g.op in ("lt0", "not"):
        h = _floor_free(g, ctx)
        if h is not None and (ctx.entails(h) or prove(h, ctx, depth - 1)[0] if depth > 0 else ctx.entails(h)):
            return True, "floor rule+z3"
    # integer p<0 where p+1<=0 : sign analysis on -p-1
    if f.op == "lt0" and f.args[0].is_int and ctx.nonneg(simp(-f.args[0] - ONE, ctx)):
        return True, "sign analysis"
    if depth > 0 and g.op in ("lt0", "not") and isinstance(g.args[0] if g.op == "lt0" else g.args[0].args[0], Poly):
        q = None
        if g.op == "lt0" and g.args[0].is_int:
            q = -g.args[0] - ONE
        elif g.op == "not" and g.args[0].op == "lt0":
            q = g.args[0].args[0]
        if q is not None and sum_nonneg(q, ctx, depth):
            return True, "sign of summands"
        if q is not None and share_nonneg(q, ctx):
            return True, "share of a sum"
    if depth > 0:
        inds = set()
        for q in g.args[0].args if g.op == "not" else g.args:
            if isinstance(q, Poly):
                inds |= _ind_atoms(q)
        if inds:
            h = sorted(inds, key=lambda a: a.id)[0].args[0]
            c1, c2 = ctx.extend(h), ctx.extend(Not(h))
            r1 = prove(g, c1, depth - 1) if c1.consistent() else (True, "z3")
            if r1[0]:
                r2 = prove(g, c2, depth - 1) if c2.consistent() else (True, "z3")
                if r2[0]:
                    return True, "case split+z3"
    return False, "cannot prove %s" % show_f(g)[:1200]
