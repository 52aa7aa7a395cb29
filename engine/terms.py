"""Term language of the verifier: polynomials over hash-consed atoms, finite sums and formulas.

Semantics.  Terms denote mathematical integers / reals.  Poly is a Laurent polynomial with rational
coefficients over Atoms; two Polys are the same object iff they have the same normal form.
Indicator atoms [c] (0/1 valued) carry case distinctions, so  ite(c,a,b) = [c]*a + (1-[c])*b.
sum(lo,hi,f) denotes  f(lo)+...+f(hi-1)  for lo<=hi and, as usual in summation theory, -sum(hi,lo,f)
for hi<lo (so that sum(a,b)+sum(b,c)=sum(a,c) without side conditions); the interpreter only ever
creates sums with lo<=hi proved, or with the upper end clipped to lo.
Division is a total function here: x * x^-1 is taken to be 1, i.e. a contract speaks about executions
in which no divisor is zero (listed as an assumption; discharged where the interpreter can).
"""
from fractions import Fraction
import itertools

_atoms = {}
_polys = {}
_counter = itertools.count()


class Atom:
    __slots__ = ("kind", "args", "sort", "id", "deep", "maxbv", "__weakref__")

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return self.id < o.id


def _mk_atom(kind, args, sort):
    key = (kind, args, sort)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args, a.sort, a.id = kind, args, sort, next(_counter)
        deep = set()
        maxbv = 0
        if kind == "var":
            deep.add(a)
        elif kind == "bv":
            maxbv = args[0]
            deep.add(a)
        else:
            for x in args:
                if isinstance(x, Poly):
                    deep |= x.deep
                    maxbv = max(maxbv, x.maxbv)
                elif isinstance(x, F):
                    deep |= x.deep
                    maxbv = max(maxbv, x.maxbv)
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, Poly):
                            deep |= y.deep
                            maxbv = max(maxbv, y.maxbv)
            if kind == "sel":
                deep.add(args[0])
            if kind in ("sum", "red"):
                b = BV(args[0], args[1])
                deep.discard(b)
                maxbv = max(maxbv, args[0])
        a.deep = frozenset(deep)
        a.maxbv = maxbv
        _atoms[key] = a
    return a


def BV(depth, sort="I"):
    return _mk_atom("bv", (depth,), "I")


class Poly:
    __slots__ = ("terms", "deep", "maxbv", "id", "_int", "_hash", "__weakref__")

    # terms: frozenset of (mono, coeff); mono: tuple of (Atom, exp) sorted by atom id
    @property
    def items(self):
        return self.terms

    def is_const(self):
        return len(self.terms) == 0 or (len(self.terms) == 1 and next(iter(self.terms))[0] == ())

    def const(self):
        if not self.terms:
            return Fraction(0)
        if len(self.terms) == 1:
            m, c = next(iter(self.terms))
            if m == ():
                return c
        return None

    def constpart(self):
        for m, c in self.terms:
            if m == ():
                return c
        return Fraction(0)

    @property
    def is_int(self):
        return self._int

    def sorted_terms(self):
        return sorted(self.terms, key=lambda t: (len(t[0]), [(a.id, e) for a, e in t[0]]))

    def as_atom(self):
        if len(self.terms) == 1:
            m, c = next(iter(self.terms))
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def atoms(self):
        s = set()
        for m, _ in self.terms:
            for a, _e in m:
                s.add(a)
        return s

    def __repr__(self):
        return show(self)

    # arithmetic
    def __add__(self, o):
        o = P(o)
        if not o.terms:
            return self
        if not self.terms:
            return o
        d = dict(self.terms)
        for m, c in o.terms:
            n = d.get(m, 0) + c
            if n == 0:
                d.pop(m, None)
            else:
                d[m] = n
        return _mk_poly(d)

    __radd__ = __add__

    def __neg__(self):
        return _mk_poly({m: -c for m, c in self.terms})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        if not o.terms or not self.terms:
            return ZERO
        if o is ONE:
            return self
        if self is ONE:
            return o
        d = {}
        for m1, c1 in self.terms:
            for m2, c2 in o.terms:
                m = mono_mul(m1, m2)
                if m is None:
                    continue
                n = d.get(m, 0) + c1 * c2
                if n == 0:
                    d.pop(m, None)
                else:
                    d[m] = n
        return _mk_poly(d)

    __rmul__ = __mul__

    def inv(self):
        return poly_inv(self)

    def __truediv__(self, o):
        return self * poly_inv(P(o))

    def __rtruediv__(self, o):
        return P(o) * poly_inv(self)

    def __pow__(self, n):
        n = P(n).const()
        assert n is not None and n.denominator == 1, "symbolic exponent"
        n = int(n)
        if n < 0:
            return poly_inv(self) ** (-n)
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    # comparisons give formulas
    def __lt__(self, o):
        return lt0(self - P(o))

    def __gt__(self, o):
        return lt0(P(o) - self)

    def __le__(self, o):
        return Not(lt0(P(o) - self))

    def __ge__(self, o):
        return Not(lt0(self - P(o)))

    def eq(self, o):
        return eq0(self - P(o))

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        if a.kind == "ind":
            d[a] = 1
            continue
        n = d.get(a, 0) + e
        if n == 0:
            d.pop(a, None)
        else:
            d[a] = n
    return tuple(sorted(d.items(), key=lambda t: t[0].id))


def _mk_poly(d):
    key = frozenset(d.items())
    p = _polys.get(key)
    if p is None:
        p = Poly()
        p.terms = key
        deep = set()
        maxbv = 0
        isint = True
        for m, c in key:
            if c.denominator != 1:
                isint = False
            for a, e in m:
                deep |= a.deep
                maxbv = max(maxbv, a.maxbv)
                if a.sort != "I" or e < 0:
                    isint = False
        p.deep = frozenset(deep)
        p.maxbv = maxbv
        p._int = isint
        p.id = next(_counter)
        p._hash = hash(p.id)
        _polys[key] = p
    return p


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return _mk_poly({((x, 1),): Fraction(1)})
    if isinstance(x, F):
        return ind(x)
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return ZERO if x == 0 else _mk_poly({(): Fraction(x)})
    if isinstance(x, float):
        import math
        if math.isnan(x) or math.isinf(x):
            return P(mk_const_atom(repr(x)))
        return P(Fraction(x)) if x == int(x) else P(Fraction(repr(x)))
    raise TypeError("not a term: %r" % (x,))


def mk_const_atom(name):
    return _mk_atom("var", ("const:" + name,), "R")


def poly_inv(p):
    c = p.const()
    if c is not None:
        if c == 0:
            return P(_mk_atom("var", ("const:1/0",), "R"))
        return P(1 / c)
    if len(p.terms) == 1:
        m, c = next(iter(p.terms))
        return _mk_poly({tuple((a, (-e if a.kind != "ind" else 1)) for a, e in m): 1 / c})
    lead = p.sorted_terms()[-1][1]
    prim = p * P(1 / lead)
    at = _mk_atom("paren", (prim,), "R")
    return _mk_poly({((at, -1),): 1 / lead})


ZERO = None
ZERO = _mk_poly({})
ONE = _mk_poly({(): Fraction(1)})


# ---------------------------------------------------------------- formulas
class F:
    __slots__ = ("op", "args", "id", "deep", "maxbv", "__weakref__")

    def __repr__(self):
        return show_f(self)

    def __and__(self, o):
        return And(self, o)

    def __or__(self, o):
        return Or(self, o)

    def __invert__(self):
        return Not(self)

    def __bool__(self):
        raise TypeError("truth value of a symbolic formula: %r" % self)


_forms = {}


def _mk_f(op, args):
    key = (op, args)
    f = _forms.get(key)
    if f is None:
        f = F()
        f.op, f.args, f.id = op, args, next(_counter)
        deep, mb = set(), 0
        for x in args:
            if isinstance(x, (Poly, F)):
                deep |= x.deep
                mb = max(mb, x.maxbv)
        if op == "bvar":
            deep.add(f)
        f.deep, f.maxbv = frozenset(deep), mb
        _forms[key] = f
    return f


TRUE = _mk_f("true", ())
FALSE = _mk_f("false", ())


def B(x):
    if isinstance(x, F):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, Poly):
        a = x.as_atom()
        if a is not None and a.kind == "ind":
            return a.args[0]
        return Not(eq0(x))
    if isinstance(x, (int, float, Fraction)):
        return TRUE if x != 0 else FALSE
    raise TypeError("not a formula %r" % (x,))


def _primitive(p):
    """p scaled by a positive rational to coprime integer coefficients."""
    from math import gcd
    den = 1
    for _, c in p.terms:
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for _, c in p.terms:
        g = gcd(g, int(c * den))
    if g == 0:
        return p
    return p * P(Fraction(den, g))


def _is_intlike(p):
    for m, c in p.terms:
        for a, e in m:
            if a.sort != "I" or e < 0:
                return False
    return True


def lt0(p):
    c = p.const()
    if c is not None:
        return TRUE if c < 0 else FALSE
    if _is_intlike(p):
        # p < 0 over integers: scale to integer coefficients, tighten constant
        p = _primitive(p)
        from math import gcd, floor
        k = p.constpart()
        q = p - P(k)
        g = 0
        for _, c in q.terms:
            g = gcd(g, int(c))
        if g > 1:
            # g*q' + k < 0  <=>  q' < -k/g  <=> q' <= ceil(-k/g)-1 <=> q' - ceil(-k/g) < 0
            import math
            q = q * P(Fraction(1, g))
            p = q - P(math.ceil(Fraction(-k, g)))
    else:
        p = _primitive(p)
    a = p.as_atom()
    if a is not None and a.kind == "ind":
        return FALSE
    return _mk_f("lt0", (p,))


def eq0(p):
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    p = _primitive(p)
    if p.sorted_terms()[-1][1] < 0:
        p = -p
    # [c] == 0 / [c] - 1 == 0
    if len(p.terms) <= 2:
        for m, c in p.terms:
            if len(m) == 1 and m[0][0].kind == "ind" and m[0][1] == 1:
                r = (p - P(m[0][0]) * P(c)).const()
                if r is not None:
                    v = -r / c
                    if v == 0:
                        return Not(m[0][0].args[0])
                    if v == 1:
                        return m[0][0].args[0]
                    return FALSE
    if _is_intlike(p):
        from math import gcd
        g = 0
        k = p.constpart()
        for m, c in p.terms:
            if m != ():
                g = gcd(g, int(c))
        if g > 1 and k % g != 0:
            return FALSE
    return _mk_f("eq0", (p,))


def Not(f):
    f = B(f)
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    if f.op == "not":
        return f.args[0]
    if f.op == "lt0" and _is_intlike(f.args[0]):
        return lt0(-f.args[0] - ONE)
    return _mk_f("not", (f,))


def And(*fs):
    out = []
    for f in fs:
        f = B(f)
        if f is FALSE:
            return FALSE
        if f is TRUE:
            continue
        if f.op == "and":
            for g in f.args:
                if g not in out:
                    out.append(g)
        elif f not in out:
            out.append(f)
    for f in out:
        if Not(f) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk_f("and", tuple(sorted(out, key=lambda f: f.id)))


def Or(*fs):
    return Not(And(*[Not(f) for f in fs])) if _small(fs) else _or(*fs)


def _small(fs):
    return False


def _or(*fs):
    out = []
    for f in fs:
        f = B(f)
        if f is TRUE:
            return TRUE
        if f is FALSE:
            continue
        if f.op == "or":
            for g in f.args:
                if g not in out:
                    out.append(g)
        elif f not in out:
            out.append(f)
    for f in out:
        if Not(f) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk_f("or", tuple(sorted(out, key=lambda f: f.id)))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    return Or(And(a, b), And(Not(a), Not(b)))


def BoolVar(name):
    return _mk_f("bvar", (name,))


def ind(f):
    f = B(f)
    if f is TRUE:
        return ONE
    if f is FALSE:
        return ZERO
    if f.op == "and":
        r = ONE
        for g in f.args:
            r = r * ind(g)
        return r
    if f.op == "or":
        r = ONE
        for g in f.args:
            r = r * (ONE - ind(g))
        return ONE - r
    if f.op == "not":
        return ONE - ind(f.args[0])
    if f.op == "lt0" and _is_intlike(f.args[0]):
        # canonical orientation: of p<0 and not(p<0) = -p-1<0 pick one
        st = f.args[0].sorted_terms()
        if st[-1][1] < 0:
            g = Not(f)
            if g.op == "lt0":
                return ONE - P(_mk_atom("ind", (g,), "I"))
    return P(_mk_atom("ind", (f,), "I"))


def Ite(c, a, b):
    c = B(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, F) or isinstance(b, F):
        a, b = B(a), B(b)
        if a is b:
            return a
        return Or(And(c, a), And(Not(c), b))
    a, b = P(a), P(b)
    if a is b:
        return a
    k = ind(c)
    return b + k * (a - b)


# ---------------------------------------------------------------- constructors
_fresh = itertools.count(1)


def var(name, sort="I"):
    return _mk_atom("var", (name,), sort)


def fresh(prefix="v", sort="I"):
    return _mk_atom("var", ("%s!%d" % (prefix, next(_fresh)),), sort)


def fresh_name(prefix):
    return "%s!%d" % (prefix, next(_fresh))


def sel(name, idx, sort="R"):
    return P(_mk_atom("sel", (name, tuple(P(i) for i in idx)), sort))


def app(fn, *args, sort="R"):
    args = tuple(P(a) for a in args)
    if fn == "exp":
        return exp(args[0])
    if fn == "ln":
        return ln(args[0])
    if fn == "abs":
        c = args[0].const()
        if c is not None:
            return P(abs(c))
        q = args[0]
        if q.sorted_terms()[-1][1] < 0:
            q = -q
        return P(_mk_atom("app", ("abs", q), "I" if q.is_int else "R"))
    if fn == "sqrt":
        c = args[0].const()
        if c is not None and c >= 0:
            import math
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return P(Fraction(n, d))
    return P(_mk_atom("app", (fn,) + args, sort))


def exp(p):
    p = P(p)
    r = ONE
    rest = {}
    for m, c in p.terms:
        if m == ():
            rest[m] = c
            continue
        # exp([c]*x) = [c]*exp(x) + 1-[c]; exp(ln x) = x for the monomial ln x (x>0 is a definedness condition)
        inds = [(a, e) for a, e in m if a.kind == "ind" and e == 1]
        if inds:
            k = ONE
            for a, e in inds:
                k = k * P(a)
            u = _mk_poly({tuple((a, e) for a, e in m if (a, e) not in inds): c})
            r = r * (k * exp(u) + (ONE - k))
            continue
        base = _mk_poly({m: Fraction(1)})
        if c.denominator == 1:
            a = base.as_atom()
            if a is not None and a.kind == "app" and a.args[0] == "ln":
                r = r * (a.args[1] ** int(c))
                continue
            e = P(_mk_atom("app", ("exp", base), "R"))
            r = r * (e ** int(c))
        else:
            num = _mk_poly({m: Fraction(1, c.denominator)})
            e = P(_mk_atom("app", ("exp", num), "R"))
            r = r * (e ** int(c.numerator))
    if rest:
        k = rest[()]
        e = P(_mk_atom("app", ("exp", P(1)), "R")) if k.denominator == 1 else \
            P(_mk_atom("app", ("exp", P(Fraction(1, k.denominator))), "R"))
        r = r * (e ** int(k.numerator))
    return r


def ln(p):
    p = P(p)
    c = p.const()
    if c == 1:
        return ZERO
    # pull exp(..)^n and positive rational factors out of a single monomial; common exp factors of sums
    if p.terms:
        exps = {at for m, c in p.terms for at, e in m if at.kind == "app" and at.args[0] == "exp"}
        common = {}
        for at in exps:
            mn = min(dict(m).get(at, 0) for m, c in p.terms)
            if mn != 0:
                common[at] = mn
        if common:
            r = ZERO
            f = ONE
            for a, e in common.items():
                r = r + a.args[1] * P(e)
                f = f * (P(a) ** e)
            return r + ln(p * poly_inv(f))
    return P(_mk_atom("app", ("ln", p), "R"))


def fdiv(p, q):
    """floor(p/q) for integer p, q"""
    p, q = P(p), P(q)
    cp, cq = p.const(), q.const()
    if cp is not None and cq is not None and cq != 0:
        import math
        return P(math.floor(cp / cq))
    if q is ONE:
        return p
    if p is ZERO:
        return ZERO
    # extract multiples of q
    out = ZERO
    if cq is not None and p.is_int and cq.denominator == 1 and cq > 0:
        rest = {}
        for m, c in p.terms:
            k, r = divmod(c, cq)
            if k != 0:
                out = out + _mk_poly({m: Fraction(k)})
            if r != 0:
                rest[m] = r
        p = _mk_poly(rest)
        if p is ZERO:
            return out
        c = p.const()
        if c is not None and 0 <= c < cq:
            return out
    else:
        qa = None
        if len(q.terms) == 1:
            (qm, qc), = q.terms
            if qc == 1:
                qa = qm
        if qa:
            rest = {}
            for m, c in p.terms:
                d = dict(m)
                ok = c.denominator == 1
                for a, e in qa:
                    if d.get(a, 0) < e:
                        ok = False
                        break
                if ok:
                    for a, e in qa:
                        d[a] -= e
                        if d[a] == 0:
                            del d[a]
                    out = out + _mk_poly({tuple(sorted(d.items(), key=lambda t: t[0].id)): c})
                else:
                    rest[m] = c
            p = _mk_poly(rest)
            if p is ZERO:
                return out
        elif p is q:
            return ONE
    return out + P(_mk_atom("fdiv", (p, q), "I"))


def mod(p, q):
    p, q = P(p), P(q)
    return p - q * fdiv(p, q)


def floor_(p):
    p = P(p)
    if p.is_int:
        return p
    c = p.const()
    if c is not None:
        import math
        return P(math.floor(c))
    q = None
    for m, k in p.terms:                 # floor(u/q) for integers u, q
        neg = [a for a, e in m if e < 0]
        if k.denominator != 1 or len(neg) != 1 or (q is not None and neg[0] is not q) or dict(m)[neg[0]] != -1 or not all(a.sort == "I" for a, e in m):
            return P(_mk_atom("floor", (p,), "I"))
        q = neg[0]
    return fdiv(p * P(q), P(q))


def mk_sum(x, lo, hi, body):
    """sum_{x=lo}^{hi-1} body, x an Atom (variable) bound here."""
    lo, hi, body = P(lo), P(hi), P(body)
    if body is ZERO or lo is hi:
        return ZERO
    if x not in body.deep:
        return body * (hi - lo)
    span = (hi - lo).const()
    if span is not None and 0 <= span <= 3:
        r = ZERO
        for k in range(int(span)):
            r = r + subst(body, {x: lo + P(k)})
        return r
    out = ZERO
    free = {}
    for m, c in body.terms:
        fr, dep = [], []
        for a, e in m:
            (dep if x in a.deep else fr).append((a, e))
        d = _mk_poly({tuple(dep): Fraction(1)})
        f = _mk_poly({tuple(fr): c})
        free[d] = free.get(d, ZERO) + f
    if len(free) > 1:
        for d in list(free):
            f = free.get(d)
            if f is None or f is ZERO or d is ONE:
                continue
            d2 = subst(d, {x: P(x) + 1})
            if d2 is not d and free.get(d2) is -f:
                # f*d(x) - f*d(x+1) telescopes
                out = out + f * (subst(d, {x: lo}) - subst(d, {x: hi}))
                free[d] = free[d2] = ZERO
    for d, f in free.items():
        if f is ZERO:
            continue
        if d is ONE:
            out = out + f * (hi - lo)
            continue
        out = out + f * _sum_atom(x, lo, hi, d)
    return out


def _sum_atom(x, lo, hi, d):
    depth = d.maxbv + 1
    b = BV(depth)
    body = subst(d, {x: P(b)}, reclose=False)
    return P(_mk_atom("sum", (depth, "I", body, lo, hi), "I" if d.is_int else "R"))


def open_sum(a):
    """sum atom -> (fresh var atom, body poly, lo, hi)"""
    depth, _, body, lo, hi = a.args
    x = fresh("s")
    return x, subst(body, {BV(depth): P(x)}, reclose=False), lo, hi


def mk_red(kind, x, lo, hi, body):
    """reduction atoms: 'max','min','argmax','any','prod' over x in [lo,hi)"""
    lo, hi, body = P(lo), P(hi), P(body)
    depth = body.maxbv + 1
    b = subst(body, {x: P(BV(depth))}, reclose=False)
    sort = "I" if kind.startswith("arg") or body.is_int else "R"
    return P(_mk_atom("red", (depth, "I", kind, b, lo, hi), sort))


def open_red(a):
    depth, _, kind, body, lo, hi = a.args
    x = fresh("s")
    return kind, x, subst(body, {BV(depth): P(x)}, reclose=False), lo, hi


# ---------------------------------------------------------------- substitution
def subst(t, amap, smap=None, reclose=True):
    """amap: Atom -> Poly, (also F bvar -> F); smap: array name -> callable(args)->Poly"""
    memo = {}
    keys = set()
    for a in amap:
        if isinstance(a, Atom) and a.kind not in ("var", "bv"):
            keys |= a.deep
        else:
            keys.add(a)
    if smap:
        keys |= set(smap)
    return _subst(t, amap, smap or {}, keys, memo, reclose)


def _subst(t, amap, smap, keys, memo, reclose):
    if isinstance(t, F):
        if not (t.deep & keys):
            return t
        r = memo.get(t)
        if r is None:
            if t.op == "bvar":
                r = amap.get(t, t)
            elif t.op in ("lt0", "eq0"):
                q = _subst(t.args[0], amap, smap, keys, memo, reclose)
                r = lt0(q) if t.op == "lt0" else eq0(q)
            else:
                args = [_subst(a, amap, smap, keys, memo, reclose) for a in t.args]
                r = {"and": And, "or": Or, "not": Not}[t.op](*args)
            memo[t] = r
        return r
    if not (t.deep & keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    r = ZERO
    for m, c in t.terms:
        q = P(c)
        for a, e in m:
            if not (a.deep & keys):
                q = q * _mk_poly({((a, e),): Fraction(1)})
            else:
                v = _subst_atom(a, amap, smap, keys, memo, reclose)
                q = q * (v ** e if e >= 0 else poly_inv(v) ** (-e))
        r = r + q
    memo[t] = r
    return r


def _subst_atom(a, amap, smap, keys, memo, reclose):
    v = memo.get(a)
    if v is not None:
        return v
    v = amap.get(a)
    if v is None:
        v = rebuild(a, lambda p: _subst(p, amap, smap, keys, memo, reclose), smap, reclose)
    memo[a] = v
    return v


def rebuild(a, f, smap=None, reclose=True):
    """reconstruct atom a with f applied to its immediate sub-terms (normalising)."""
    k = a.kind
    if k in ("var", "bv"):
        return P(a)
    if k == "sel":
        args = tuple(f(p) for p in a.args[1])
        if smap and a.args[0] in smap:
            return P(smap[a.args[0]](args))
        return P(_mk_atom("sel", (a.args[0], args), a.sort))
    if k == "app":
        return app(a.args[0], *[f(p) for p in a.args[1:]], sort=a.sort)
    if k == "ind":
        return ind(f(a.args[0]))
    if k == "paren":
        return f(a.args[0])
    if k == "fdiv":
        return fdiv(f(a.args[0]), f(a.args[1]))
    if k == "floor":
        return floor_(f(a.args[0]))
    if k == "sum":
        if not reclose:
            # closing/opening: replace only inside, keep binder (no capture: fresh variable or outermost bv)
            depth, _, body, lo, hi = a.args
            nb, nlo, nhi = f(body), f(lo), f(hi)
            return P(_mk_atom("sum", (depth, "I", nb, nlo, nhi), a.sort))
        x, body, lo, hi = open_sum(a)
        return mk_sum(x, f(lo), f(hi), f(body))
    if k == "red":
        if not reclose:
            depth, _, kind, body, lo, hi = a.args
            return P(_mk_atom("red", (depth, "I", kind, f(body), f(lo), f(hi)), a.sort))
        kind, x, body, lo, hi = open_red(a)
        return mk_red(kind, x, f(lo), f(hi), f(body))
    raise TypeError(k)


# ---------------------------------------------------------------- derivative
def diff(p, wrt):
    """d p / d wrt;  wrt: Atom that may also occur as sel atom"""
    r = ZERO
    for m, c in p.terms:
        for i, (a, e) in enumerate(m):
            if wrt is not a and not _mentions(a, wrt):
                continue
            da = _diff_atom(a, wrt)
            if da is ZERO:
                continue
            rest = _mk_poly({tuple(m[:i] + m[i + 1:]): c})
            r = r + rest * P(e) * (P(a) ** (e - 1)) * da
    return r


def _mentions(a, wrt):
    return wrt.kind != "sel" and wrt in a.deep or wrt.kind == "sel" and wrt.args[0] in a.deep


def _diff_atom(a, wrt):
    if a is wrt:
        return ONE
    if a.kind == "sel":
        if wrt.kind == "sel" and a.args[0] == wrt.args[0]:
            c = And(*[eq0(x - y) for x, y in zip(a.args[1], wrt.args[1])])
            return ind(c)
        return ZERO
    if a.kind == "app":
        fn, u = a.args[0], a.args[1]
        du = diff(u, wrt)
        if du is ZERO:
            return ZERO
        if fn == "exp":
            return P(a) * du
        if fn == "ln":
            return du / u
        if fn == "lgamma":
            return app("psi", u) * du
        if fn == "psi":
            return app("psi1", u) * du
        raise TypeError("derivative of " + fn)
    if a.kind == "sum":
        x, body, lo, hi = open_sum(a)
        return mk_sum(x, lo, hi, diff(body, wrt))
    if a.kind == "paren":
        return diff(a.args[0], wrt)
    if a.kind == "ind":
        return ZERO
    raise TypeError("derivative of " + a.kind)


# ---------------------------------------------------------------- printing
def show(p):
    if not p.terms:
        return "0"
    out = []
    for m, c in p.sorted_terms():
        s = []
        for a, e in m:
            s.append(show_atom(a) + ("" if e == 1 else "^%d" % e))
        if not s:
            out.append(str(c))
        elif c == 1:
            out.append("*".join(s))
        elif c == -1:
            out.append("-" + "*".join(s))
        else:
            out.append(str(c) + "*" + "*".join(s))
    return " + ".join(out).replace("+ -", "- ")


def show_atom(a):
    k = a.kind
    if k == "var":
        return a.args[0]
    if k == "bv":
        return "$%d" % a.args[0]
    if k == "sel":
        return "%s[%s]" % (a.args[0], ",".join(show(p) for p in a.args[1]))
    if k == "app":
        return "%s(%s)" % (a.args[0], ",".join(show(p) for p in a.args[1:]))
    if k == "ind":
        return "[%s]" % show_f(a.args[0])
    if k == "paren":
        return "(%s)" % show(a.args[0])
    if k == "fdiv":
        return "floor((%s)/(%s))" % (show(a.args[0]), show(a.args[1]))
    if k == "floor":
        return "floor(%s)" % show(a.args[0])
    if k == "sum":
        return "Sum{$%d=%s..%s}(%s)" % (a.args[0], show(a.args[3]), show(a.args[4]), show(a.args[2]))
    if k == "red":
        return "%s{$%d=%s..%s}(%s)" % (a.args[2], a.args[0], show(a.args[4]), show(a.args[5]), show(a.args[3]))
    return "?" + k


def show_f(f):
    if f.op in ("true", "false"):
        return f.op
    if f.op == "lt0":
        return show(f.args[0]) + " < 0"
    if f.op == "eq0":
        return show(f.args[0]) + " = 0"
    if f.op == "not":
        return "not(%s)" % show_f(f.args[0])
    if f.op == "bvar":
        return f.args[0]
    return "(" + (" %s " % f.op).join(show_f(g) for g in f.args) + ")"


for _n in (Poly,):
    pass
