"""Contract language.  A contract is a Python function over `v`; the same text is evaluated
  * symbolically (SymV): inputs are arbitrary, `v.call` executes the extracted source of the real function
    for all inputs, every requirement becomes a proof obligation;
  * concretely (ConcV): inputs are generated, `v.call` runs the real compiled/interpreted function, every
    requirement is evaluated (used for replayable failing inputs and as the bounded stand-in)."""
import math
import random
import sys
import time
import numpy as np

CONTRACTS = {}


class Contract:
    def __init__(self, name, prop, fn, targets, mode, group):
        self.name, self.prop, self.fn, self.targets, self.mode, self.group = name, prop, fn, targets, mode, group


def contract(prop, targets, mode="proof", name=None, variants=None, weight=1, known=None):
    """mode 'proof': must verify; 'bounded': concrete check only (labelled bounded, never counted as proved)"""
    def deco(fn):
        vs = variants or [None]
        for i, va in enumerate(vs):
            nm = "%s.%s" % (prop, name or fn.__name__)
            if va is not None:
                nm += "[%s]" % (va if isinstance(va, str) else "-".join(str(x) for x in va) if isinstance(va, tuple) else str(va))
            f = (lambda v, fn=fn, va=va: fn(v, va)) if va is not None else fn
            tg = targets(va) if callable(targets) else targets
            c = Contract(nm, prop, f, tg, mode(va) if callable(mode) else mode, None)
            c.weight = weight
            c.known = known
            CONTRACTS[nm] = c
        return fn
    return deco


class Reject(Exception):
    """generated input violates the precondition"""


class Violation(Exception):
    def __init__(self, name, detail=""):
        Exception.__init__(self, name + ": " + detail)
        self.name, self.detail = name, detail


def resolve(path):
    import importlib
    parts = path.split(".")
    for i in range(len(parts), 0, -1):
        try:
            o = importlib.import_module(".".join(parts[:i]))
        except ImportError as ex:
            if not ex.name or not ".".join(parts[:i]).startswith(ex.name):
                if ex.name and not ex.name.startswith("sidetopics"):
                    raise
            continue
        for p in parts[i:]:
            o = getattr(o, p)
        return o
    raise ImportError(path)


# ====================================================================== concrete
class ConcV:
    sym = False

    def __init__(self, seed, small=6):
        self.rng = random.Random(seed)
        self.np = np.random.RandomState(self.rng.randrange(2 ** 31))
        self.small = small
        self.tol = 1e-7
        self.inputs = []
        self.desc = {}
        self.guards = []
        self.calls = 0
        self.checked = 0
        self.ntol = 0
        self.lits = ()

    # -- generation
    def size(self, name, lo=1, hi=None):
        hi = hi if hi is not None else max(lo, self.small) + 1
        r = self.rng.randrange(lo, max(lo + 1, hi))
        self.desc[name] = r
        return r

    def int(self, name, lo, hi):
        if hi <= lo:
            raise Reject()
        c = self.rng.random()
        r = lo if c < .2 else hi - 1 if c < .4 else self.rng.randrange(lo, hi)
        self.desc[name] = r
        return r

    def real(self, name, lo=None, hi=None, strict=True):
        r = self._val("f8", lo, hi, strict)
        self.desc[name] = r
        return r

    def bool(self, name):
        r = self.rng.random() < .5
        self.desc[name] = r
        return r

    def choice(self, name, opts):
        r = self.rng.choice(list(opts))
        self.desc[name] = r
        return r

    def _val(self, dtype, lo, hi, strict, scale=None):
        g = self.rng
        if dtype[0] in "iu":
            lo = 0 if lo is None else lo
            hi = lo + 6 if hi is None else hi
            return g.randrange(lo, hi) if hi > lo else lo
        if self.lits and g.random() < .06:
            x = g.choice(self.lits) * g.choice([1, 1, -1])
            if (lo is None or x > lo) and (hi is None or x < hi):
                return x
        if lo is None and hi is None:
            return g.gauss(0, 3) if g.random() < .8 else g.choice([0.0, -20.0, 35.0, -1.0, 1.0, 40.0, -40.0])
        if lo is None:
            return hi - g.expovariate(1) - (1e-3 if strict else 0)
        if hi is None:
            x = g.random()
            if not strict and x < .15:
                return float(lo)
            return lo + (g.expovariate(1) if x < .8 else g.random() * 1e-3 + 1e-6 if x < .9 else g.random() * 50 + 1e-3) + (1e-6 if strict else 0)
        e = 1e-6 * (hi - lo)
        x = g.random()
        if not strict and x < .1:
            return float(lo)
        return lo + e + (hi - lo - 2 * e) * g.random()

    DT = {"f8": np.float64, "f4": np.float32, "i4": np.int32, "i8": np.int64, "u1": np.uint8, "u2": np.uint16, "b": np.bool_}

    def guarded(self, a, order="C"):
        """copy of a inside a larger allocation whose margins are checked after every call"""
        a = np.asarray(a)
        if a.size == 0:
            return a.copy(order)
        pad = 64
        buf = np.empty(a.size + 2 * pad, dtype=a.dtype)
        fillv = {"f": -7.7e7, "i": 1 << 20, "u": 251, "b": True}[a.dtype.kind]
        buf[:] = fillv
        if a.dtype.kind == "i" and a.dtype.itemsize < 4:
            buf[:] = 119
        view = buf[pad:pad + a.size].reshape(a.shape, order=order)
        view[...] = a
        self.guards.append((buf, pad, a.size, buf[:pad].copy(), buf[pad + a.size:].copy()))
        return view

    def check_guards(self):
        for buf, pad, n, l, r in self.guards:
            if not (np.array_equal(buf[:pad], l) and np.array_equal(buf[pad + n:], r)):
                raise Violation("memory safety", "write outside an array's bounds")

    def arr(self, name, shape, dtype="f8", lo=None, hi=None, strict=True, facts=None, gen=None, sumto=None, order="C", wide=False):
        if wide and gen is None and self.rng.random() < .5:
            # magnitudes at which exp() over- and underflows, and rows of very different magnitude
            sc = self.rng.choice([1, 30, 300])
            off = self.rng.choice([0, 0, 900, -900, 5000, -5000])
            per = self.rng.random() < .5
            offs, ax = {}, self.rng.choice([0, -1])

            def gen(g, *i):
                o = offs.setdefault(i[ax], g.choice([off, 0, -off])) if per else off
                if self.lits and g.random() < .06:
                    return g.choice(self.lits) * g.choice([1, 1, -1])
                return o + g.gauss(0, sc)
        shape = tuple(int(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,)))
        a = np.empty(shape, dtype=self.DT[dtype])
        for idx in np.ndindex(*shape):
            if gen is not None:
                a[idx] = gen(self.rng, *idx)
            else:
                l = lo(*idx) if callable(lo) else lo
                h = hi(*idx) if callable(hi) else hi
                a[idx] = self._val(dtype, l, h, strict)
        if sumto is not None and a.size:
            a /= a.sum(axis=-1, keepdims=True)
            a *= sumto
        r = self.guarded(a, order)
        self.track(name, r)
        return r

    def track(self, name, a):
        self.inputs.append((name, a, self._snap(a)))
        self.desc[name] = a

    def list(self, name, n, gen):
        return [gen(i) for i in range(n)]

    def _snap(self, a):
        import scipy.sparse as ssp
        if ssp.issparse(a):
            return (a.indptr.copy(), a.indices.copy(), a.data.copy(), a.shape)
        return np.array(a, copy=True)

    def _same(self, a, snap):
        import scipy.sparse as ssp
        if ssp.issparse(a):
            return a.shape == snap[3] and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip((a.indptr, a.indices, a.data), snap))
        return a.shape == snap.shape and np.array_equal(a, snap, equal_nan=True) if a.dtype.kind == "f" else np.array_equal(a, snap)

    def csr(self, name, shape, dtype="f8", lo=None, hi=None, strict=True, density=None, symmetric=False, rowmin=0, opaque=False, square=False, canonical=False, counts=False):
        import scipy.sparse as ssp
        R, C = int(shape[0]), int(shape[1])
        dens = self.rng.choice([.2, .5, .8, 1.0]) if density is None else density
        data, ind, ptr = [], [], [0]
        for i in range(R):
            cols = [j for j in range(C) if self.rng.random() < dens]
            while len(cols) < min(rowmin, C):
                cols = sorted(set(cols) | {self.rng.randrange(C)})
            for j in cols:
                ind.append(j)
                data.append(self._val(dtype, lo, hi, strict) if not counts or dtype in ("i4", "u2") else float(self.rng.randrange(int(lo), int(hi))))
            ptr.append(len(ind))
        m = ssp.csr_matrix((self.guarded(np.array(data, dtype=self.DT[dtype])), self.guarded(np.array(ind, dtype=np.int32)),
                            self.guarded(np.array(ptr, dtype=np.int32))), shape=(R, C), copy=False)
        if symmetric:
            m = ssp.csr_matrix(m.maximum(m.T))
        self.track(name, m)
        return m

    def struct(self, cls, **kw):
        return resolve(cls)(**kw) if isinstance(cls, str) else cls(**kw)

    # -- execution
    def stream(self):
        """the C random stream of the next calls: arbitrary, extremes included"""
        import ctypes
        m = self.rng.choice([0, 1, 1, 2, 3])
        try:
            ctypes.CDLL(None).vp_rand(m, ctypes.c_ulonglong(self.rng.randrange(1, 2 ** 60)))
        except AttributeError:
            pass
        self.desc["rand stream"] = m

    def poison(self):
        """leave recognisable garbage in numpy's cache of small freed blocks, so that memory the code under test
        forgets to initialise does not happen to hold the right answer (larger blocks: MALLOC_PERTURB_)"""
        for n in range(4, 512, 4):
            ls = [np.full(n, 0x7b, dtype=np.uint8) for _ in range(7)]
            del ls

    def call(self, fn, *args, modifies=(), allow=None, **kw):
        f = resolve(fn) if isinstance(fn, str) else fn
        self.calls += 1
        self.poison()
        self.drawn = {}
        kept = {k: getattr(np.random, k) for k in ("multinomial", "dirichlet")}
        try:
            for k, g in kept.items():
                setattr(np.random, k, self.recorder(k, g))
            with np.errstate(all="ignore"):
                r = f(*args, **kw)
        except Exception as ex:
            if allow and type(ex).__name__ in allow:
                return None
            import traceback
            tb = traceback.extract_tb(ex.__traceback__)[-1]
            raise Violation("no exception", "%s: %s at %s:%s" % (type(ex).__name__, ex, tb.filename.split("/")[-1], tb.lineno))
        finally:
            for k, g in kept.items():
                setattr(np.random, k, g)
        self.check_guards()
        self.frame(modifies)
        return r

    def frame(self, modifies=()):
        for i, (name, a, snap) in enumerate(self.inputs):
            if any(a is m for m in modifies):
                continue
            if not self._same(a, snap):
                raise Violation("frame: %s is left unchanged" % name, "changed")

    def refresh(self, *arrs):
        self.inputs = [(n, a, self._snap(a)) for n, a, s in self.inputs]

    def method(self, obj, name, *args, **kw):
        return self.call(getattr(obj, name), *args, **kw)

    def raises(self, fn, *args, exc=None, **kw):
        f = resolve(fn) if isinstance(fn, str) else fn
        self.calls += 1
        try:
            f(*args, **kw)
        except Exception as ex:
            if exc and type(ex).__name__ not in exc:
                raise Violation("rejects the call", "raised %s" % type(ex).__name__)
            return True
        raise Violation("rejects the call", "accepted")

    def old(self, a):
        import scipy.sparse as ssp
        if isinstance(a, (int, float)):
            return a
        return a.copy() if not isinstance(a, (tuple, list)) else type(a)(self.old(x) for x in a)

    def get(self, obj, name):
        return getattr(obj, name)

    def shape(self, a):
        return a.shape

    def starts(self, m):
        """how much the rows before this one sum to (counts only)"""
        off = np.concatenate(([0], np.cumsum(np.asarray(m.sum(axis=1)).ravel().astype(np.int64))))
        return lambda d: int(off[d])

    def dense(self, a):
        import scipy.sparse as ssp
        return np.asarray(a.todense()) if ssp.issparse(a) else np.asarray(a)

    def T(self, a):
        return a.T

    def is_none(self, a):
        return a is None

    # -- logic
    def assume(self, f):
        if not f:
            raise Reject()

    def eq(self, a, b):
        if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
            return bool(a) == bool(b)
        a, b = float(a), float(b)
        if a == b:
            return True
        if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
            return False
        return abs(a - b) <= self.tol * max(1.0, abs(a), abs(b))

    def le(self, a, b):
        return a <= b + self.tol * max(1.0, abs(a), abs(b))

    def nonneg(self, a):
        return a >= 0

    def And(self, *f):
        return all(f)

    def Or(self, *f):
        return any(f)

    def Not(self, f):
        return not f

    def Implies(self, a, b):
        return (not a) or b

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        if c:
            return a() if callable(a) else a
        return b() if callable(b) else b

    def ind(self, c):
        return 1 if c else 0

    def sum(self, lo, hi, fn=None):
        if fn is None:
            lo, hi, fn = 0, lo, hi
        return math.fsum(float(fn(i)) for i in range(int(lo), int(hi)))

    def isum(self, lo, hi, fn):
        return sum(int(fn(i)) for i in range(int(lo), int(hi)))

    def prod(self, n, fn):
        r = 1.0
        for i in range(n):
            r *= fn(i)
        return r

    def ln(self, x):
        return math.log(x) if x > 0 else float("-inf")

    def exp(self, x):
        return math.exp(x) if x < 700 else float("inf")

    def softmax(self, n, e):
        """-> k -> exp(e(k)) / sum of all exp(e(j))"""
        import scipy.special
        l = np.array([float(e(j)) for j in range(int(n))])
        p = np.exp(l - scipy.special.logsumexp(l))
        return lambda k: float(p[int(k)])

    def psi(self, x):
        import scipy.special
        return float(scipy.special.digamma(x))

    def lgamma(self, x):
        import scipy.special
        return float(scipy.special.gammaln(x))

    def abs(self, x):
        return abs(x)

    def fdiv(self, a, b):
        return int(a) // int(b)

    def mod(self, a, b):
        return int(a) % int(b)

    def maxof(self, n, fn):
        return max(fn(i) for i in range(n))

    def forall(self, name, ranges, fn):
        import itertools
        for idx in itertools.product(*[range(int(r)) if not isinstance(r, tuple) else range(int(r[0]), int(r[1])) for r in ranges]):
            self.checked += 1
            if not fn(*idx):
                raise Violation(name, "fails at index %s%s" % (idx, self.explain(fn, idx)))

    def explain(self, fn, idx):
        return ""

    def ensure(self, name, f):
        self.checked += 1
        if not f:
            raise Violation(name, "false")

    def lemma(self, name, f):
        self.ensure(name, f)

    def cover(self, name, f):
        pass

    def same(self, name, a, b):
        """two arrays (or csr, scalars, None) are equal element by element, and of the same shape"""
        import scipy.sparse as ssp
        self.checked += 1
        if a is None or b is None:
            if a is not b:
                raise Violation(name, "None")
            return
        if ssp.issparse(a) or ssp.issparse(b):
            if a.shape != b.shape or not np.allclose(self.dense(a), self.dense(b), rtol=self.tol, atol=self.tol):
                raise Violation(name, "matrices differ")
            return
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            raise Violation(name, "shapes differ: %s vs %s" % (x.shape, y.shape))
        if x.size and not np.allclose(x.astype(float), y.astype(float), rtol=self.tol, atol=self.tol * 1e-3, equal_nan=True):
            raise Violation(name, "arrays differ")

    def has_shape(self, name, a, shape):
        self.checked += 1
        if tuple(a.shape) != tuple(int(s) for s in shape):
            raise Violation(name, "shape %s, expected %s" % (a.shape, tuple(shape)))

    def distinct(self, name, a, b):
        """no shared memory"""
        import scipy.sparse as ssp
        self.checked += 1
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.shares_memory(a, b):
            raise Violation(name, "arrays share memory")

    def invariant(self, *a, **k):
        pass

    def use_contract(self, *a, **k):
        pass

    def recorder(self, kind, g):
        def draw(*a, **k):
            par = np.array(k.get("pvals", k.get("alpha", a[1 if kind == "multinomial" and len(a) > 1 else 0] if a else 0)), dtype=float)
            r = g(*a, **k)
            self.drawn.setdefault(kind, []).append((par, np.array(r)))
            return r
        return draw

    def draws(self, kind, n, size):
        l = self.drawn.get(kind, [])
        self.assume(len(l) == n and all(np.size(p) == size and np.size(o) == size and np.isfinite(o).all() for p, o in l))
        return (lambda i, k: float(np.ravel(l[i][0])[k]), lambda i, k: float(np.ravel(l[i][1])[k]))

    def setglobal(self, path, value):
        """a module-level setting"""
        m, n = path.rsplit(".", 1)
        m = resolve(m)
        if hasattr(m, n):
            setattr(m, n, value)

    def close(self, a, b):
        """equal, up to the error of a numerical derivative"""
        return abs(float(a) - float(b)) <= 1e-4 * max(1.0, abs(float(a)), abs(float(b)))

    def derivative(self, fn, x, i):
        """d fn(x) / d x[i]"""
        d = 1e-5 * max(1.0, abs(float(x[i])))
        a, b = np.array(x, float), np.array(x, float)
        a[i] += d
        b[i] -= d
        return (fn(a) - fn(b)) / (a[i] - b[i])


# ====================================================================== symbolic
class SymV:
    sym = True

    def __init__(self, E):
        self.E = E
        self.inputs = []
        self.tol = 0
        self.n = 0
        self.rng = random.Random(0)

    # -- inputs
    def size(self, name, lo=1, hi=None):
        return self.int(name, lo, hi if hi is not None and hi > 50 else None)

    def int(self, name, lo=None, hi=None):
        import terms as T
        a = T.P(T.var("in_" + name))
        if lo is not None:
            self.E.assume(T.P(lo) <= a)
        if hi is not None:
            self.E.assume(a < T.P(hi))
        return a

    def real(self, name, lo=None, hi=None, strict=True):
        import terms as T
        a = T.P(T.var("in_" + name, "R"))
        if lo is not None:
            self.E.assume(T.P(lo) < a if strict else T.P(lo) <= a)
        if hi is not None:
            self.E.assume(a < T.P(hi) if strict else a <= T.P(hi))
        return a

    def bool(self, name):
        import terms as T
        return T.BoolVar("in_" + name)

    def choice(self, name, opts):
        """case distinction of the contract: every option is verified"""
        E = self.E
        opts = list(opts)
        if E.tpos < len(E.trace):
            k = E.trace[E.tpos]
        else:
            k = 0
            for j in range(1, len(opts)):
                E.pending.append(E.trace[:E.tpos] + [j])
            E.trace.append(0)
        E.tpos += 1
        return opts[int(k)]

    def arr(self, name, shape, dtype="f8", lo=None, hi=None, strict=True, facts=None, gen=None, sumto=None, order="C", wide=False):
        from values import new_arr, formals, INTD, var
        import terms as T
        from smt import declare_array
        shape = shape if isinstance(shape, (tuple, list)) else (shape,)
        dims = [T.P(s) for s in shape]
        isint = dtype in INTD
        sort = "I" if isint else "R"
        nm = "in_" + name

        def fx(idx):
            v = T.sel(nm, idx, sort)
            rng = T.And(*[T.And(T.P(0) <= i, i < d) for i, d in zip(idx, dims)])
            out = []
            l = lo(*idx) if callable(lo) else lo
            h = hi(*idx) if callable(hi) else hi
            if l is not None:
                out.append(T.P(l) < v if (strict and not isint) else T.P(l) <= v)
            if h is not None:
                out.append(v < T.P(h) if (strict or isint) else v <= T.P(h))
            if facts is not None:
                out += list(facts(idx, v))
            return [T.Implies(rng, f) for f in out]
        rule = None
        if sumto is not None:
            def rule(x, args, slo, shi, ctx):
                from smt import simp
                if args[-1].as_atom() is x and all(x not in q.deep for q in args[:-1]) and slo is T.ZERO and simp(shi - dims[-1], ctx) is T.ZERO:
                    return T.P(sumto)
                return None
        declare_array(nm, sort, fx, sumrule=rule)
        body = T.sel(nm, formals(len(dims)), sort)
        if dtype == "b":
            body = body.eq(T.ONE)
        a = new_arr(dims, dtype, body, name)
        self.track(name, a)
        return a

    def given(self, name, shape, dtype, fn):
        """an array whose elements are the given function of their index"""
        from values import new_arr, formals
        import terms as T
        dims = [T.P(s) for s in shape]
        a = new_arr(dims, dtype, T.P(fn(*formals(len(dims)))), name)
        self.track(name, a)
        return a

    def track(self, name, a):
        self.inputs.append((name, a, self._snap(a)))

    def _snap(self, a):
        from values import SCsr, new_arr, SArr
        if isinstance(a, SCsr):
            return (a, [(x, x.buf.body) for x in (a.indptr, a.indices, a.data, a._dense_) if x is not None])
        return a.buf.body

    def csr(self, name, shape, dtype="f8", lo=None, hi=None, strict=True, density=None, symmetric=False, rowmin=0, opaque=False, square=False, canonical=False, counts=False):
        from values import SCsr, new_arr, formals, INTD
        import terms as T
        import npmodel
        from smt import declare_array
        R, C = T.P(shape[0]), T.P(shape[1])
        E = self.E
        if opaque:
            # the entries of the matrix, storage not modelled
            d = self.arr(name + "_dense", (R, C), dtype, 0 if lo is not None and (lo == 0 or lo == 1 or dtype in INTD) else None, hi, strict=False)
            self.inputs.pop()
            m = SCsr([R, C], dtype, dense=d, name=name)
            self.track(name, m)
            return m
        nnz = T.P(T.var("in_%s_nnz" % name))
        E.assume(nnz >= T.P(0))
        pn = "in_%s_ptr" % name

        def pf(idx):
            t = idx[0]
            v = T.sel(pn, idx, "I")
            out = [T.Implies(T.And(T.P(0) <= t, t <= R), T.And(T.P(0) <= v, v <= nnz))]
            out.append(T.Implies(T.eq0(t), T.eq0(v)))
            out.append(T.Implies(t.eq(R), v.eq(nnz)))
            return out

        def prw(args, ctx):
            if args[0] is T.ZERO:
                return T.ZERO
            if args[0] is R:
                return nnz
            return None
        inf = declare_array(pn, "I", pf, rewrite=prw)
        import smt
        ptr = new_arr([R + 1], "i4", T.sel(pn, formals(1), "I"), name + ".indptr")
        iname = "in_%s_ind" % name
        declare_array(iname, "I", lambda idx: [T.Implies(T.And(T.P(0) <= idx[0], idx[0] < nnz), T.And(T.P(0) <= T.sel(iname, idx, "I"), T.sel(iname, idx, "I") < C))])
        ind = new_arr([nnz], "i4", T.sel(iname, formals(1), "I"), name + ".indices")
        n0 = len(self.inputs)
        if counts:       # whole numbers, as differences of how many were counted before
            cn, con = "in_%s_cum" % name, "own_%s_cum" % name
            tot = T.P(T.var("in_%s_count" % name))
            E.assume(tot >= T.P(0))

            def cf(idx):
                t, x = idx[0], T.sel(cn, idx, "I")
                return [T.Implies(T.And(T.P(0) <= t, t <= nnz), T.And(T.P(0) <= x, x <= tot)), T.Implies(T.eq0(t), T.eq0(x)), T.Implies(t.eq(nnz), x.eq(tot))]
            declare_array(cn, "I", cf, rewrite=lambda args, ctx: T.ZERO if args[0] is T.ZERO else tot if args[0] is nnz else None)

            def cof(idx):
                q, o = idx[0], T.sel(con, idx, "I")
                return [T.Implies(T.And(T.P(0) <= q, q < tot), T.And(T.P(0) <= o, o < nnz, T.sel(cn, [o], "I") <= q, q < T.sel(cn, [o + 1], "I")))]
            declare_array(con, "I", cof)
            import smt
            smt.ARR[con].rewrite = smt.own_rewrite(cn, con)
            smt.MONO[cn] = (nnz, con, tot)
            data = new_arr([nnz], dtype, T.sel(cn, [formals(1)[0] + 1], "I") - T.sel(cn, formals(1), "I"), name + ".data")
        else:
            data = self.arr(name + "_dat", (nnz,), dtype, lo, hi, strict)
        del self.inputs[n0:]
        # ghost: the row that owns a storage position
        on = "own_%s" % name

        def of(idx):
            q = idx[0]
            o = T.sel(on, idx, "I")
            return [T.Implies(T.And(T.P(0) <= q, q < nnz), T.And(T.P(0) <= o, o < R, T.sel(pn, [o], "I") <= q, q < T.sel(pn, [o + 1], "I")))]
        declare_array(on, "I", of)
        smt.ARR[on].rewrite = smt.own_rewrite(pn, on)
        smt.MONO[pn] = (R, on, nnz)
        m = SCsr([R, C], dtype, ptr, ind, data, None, "csr", name)
        m.canonical = canonical
        self.track(name, m)
        return m

    def new_scratch(self):
        """arrays allocated from here on are scratch memory, remembered by the sign of what they hold"""
        from values import Buf
        self.E.scratch = (Buf._n,)

    def rows(self, name, R, most=None):
        """R rows (of at most so many positions) stored one after the other: (their lengths, the total length, start(row), row of(position))"""
        import terms as T
        import smt
        from smt import declare_array
        R = T.P(R)
        n = T.P(T.var("in_%s_total" % name))
        self.E.assume(n >= T.P(0))
        pn, on = "in_%s_ptr" % name, "own_%s" % name

        def pf(idx):
            t, x = idx[0], T.sel(pn, idx, "I")
            return [T.Implies(T.And(T.P(0) <= t, t <= R), T.And(T.P(0) <= x, x <= n)), T.Implies(T.eq0(t), T.eq0(x)), T.Implies(t.eq(R), x.eq(n))] \
                + ([T.Implies(T.And(T.P(0) <= t, t < R), T.sel(pn, [t + 1], "I") <= x + most)] if most else [])
        declare_array(pn, "I", pf, rewrite=lambda args, ctx: T.ZERO if args[0] is T.ZERO else n if args[0] is R else None)

        def of(idx):
            q, o = idx[0], T.sel(on, idx, "I")
            return [T.Implies(T.And(T.P(0) <= q, q < n), T.And(T.P(0) <= o, o < R, T.sel(pn, [o], "I") <= q, q < T.sel(pn, [o + 1], "I")))]
        declare_array(on, "I", of)
        smt.ARR[on].rewrite = smt.own_rewrite(pn, on)
        smt.MONO[pn] = (R, on, n)
        start = lambda d: T.sel(pn, [T.P(d)], "I")
        lens = self.given(name, (R,), "i4", lambda d: start(T.P(d) + 1) - start(d))
        return lens, n, start, lambda q: T.sel(on, [T.P(q)], "I")

    def owner(self, m, q):
        import terms as T
        return T.sel("own_%s" % m.name, [T.P(q)], "I")

    def list(self, name, n, gen):
        from values import SList
        import terms as T
        return SList(T.P(n), gen)

    def struct(self, cls, **kw):
        c = resolve(cls) if isinstance(cls, str) else cls
        return c(**kw)

    # -- execution
    def call(self, fn, *args, modifies=(), allow=None, **kw):
        from interp import InterpRaise
        E = self.E
        f = resolve(fn) if isinstance(fn, str) else fn
        try:
            r = E.call(f, list(args), kw)
        except InterpRaise as ex:
            if allow and ex.exc in allow:
                return None
            self.fail("no exception", "%s is raised on some input (path %s)" % (ex, E.trace))
            raise
        self.frame(modifies)
        return r

    def method(self, obj, name, *args, **kw):
        return self.call(self.E.getattr(obj, name), *args, **kw)

    def fail(self, name, why):
        from interp import Obl
        self.E.obls.append(Obl(name, "post", False, why, self.E.curname(), 0.0, True, ""))

    def frame(self, modifies=()):
        from values import SCsr
        for name, a, snap in self.inputs:
            if any(a is m for m in modifies):
                continue
            if isinstance(a, SCsr):
                c, parts = snap
                cur = [x for x in (a.indptr, a.indices, a.data, a._dense_) if x is not None]
                ok = len(cur) == len(parts) and all(x is y[0] for x, y in zip(cur, parts))
                if not ok:
                    self.fail("frame: %s is left unchanged" % name, "storage replaced")
                    continue
                for x, b in parts:
                    self._same_body("frame: %s is left unchanged" % name, x, b)
            else:
                self._same_body("frame: %s is left unchanged" % name, a, snap)

    def _same_body(self, name, a, old):
        import terms as T
        from values import formals
        E = self.E
        if a.buf.body is old:
            E.note_obl(name)
            return
        fs = formals(len(a.buf.dims))
        c0 = E.ctx
        E.ctx = c0.extend(*[T.And(T.P(0) <= f, f < d) for f, d in zip(fs, a.buf.dims)])
        try:
            x, y = a.buf.body, old
            E.obl(name, T.Iff(T.B(x), T.B(y)) if isinstance(x, T.F) else T.P(x).eq(T.P(y)), kind="frame")
        finally:
            E.ctx = c0

    def refresh(self, *a):
        self.inputs = [(n, a, self._snap(a)) for n, a, s in self.inputs]

    def raises(self, fn, *args, exc=None, **kw):
        from interp import InterpRaise
        f = resolve(fn) if isinstance(fn, str) else fn
        try:
            self.E.call(f, list(args), kw)
        except InterpRaise as ex:
            self.E.note_obl("rejects the call")
            return True
        self.fail("rejects the call", "the call is accepted")

    def old(self, a):
        import npmodel
        from values import SArr, SCsr
        if isinstance(a, (SArr, SCsr)):
            return npmodel.copy_arr(self.E, a)
        if isinstance(a, (tuple, list)):
            return type(a)(self.old(x) for x in a)
        return a

    def get(self, obj, name):
        return self.E.getattr(obj, name)

    def shape(self, a):
        return a.shape

    def starts(self, m):
        import terms as T
        return lambda d: T.sel("in_%s_cum" % m.name, [T.sel("in_%s_ptr" % m.name, [T.P(d)], "I")], "I")

    def dense(self, a):
        from values import SCsr
        return a.dense if isinstance(a, SCsr) else a

    def T(self, a):
        return self.E.getattr(a, "T")

    def is_none(self, a):
        return a is None

    # -- logic
    def assume(self, f):
        import terms as T
        self.E.assume(T.B(f))

    def eq(self, a, b):
        import terms as T
        if isinstance(a, (T.F, bool)) and isinstance(b, (T.F, bool)):
            return T.Iff(T.B(a), T.B(b))
        return T.P(a).eq(T.P(b))

    def le(self, a, b):
        import terms as T
        return T.P(a) <= T.P(b)

    def nonneg(self, a):
        import terms as T
        return T.P(a) >= T.P(0)

    def And(self, *f):
        import terms as T
        return T.And(*f)

    def Or(self, *f):
        import terms as T
        return T.Or(*f)

    def Not(self, f):
        import terms as T
        return T.Not(f)

    def Implies(self, a, b):
        import terms as T
        return T.Implies(a, b)

    def Iff(self, a, b):
        import terms as T
        return T.Iff(T.B(a), T.B(b))

    def ite(self, c, a, b):
        import terms as T
        a = a() if callable(a) else a
        b = b() if callable(b) else b
        return T.Ite(T.B(c), a, b)

    def ind(self, c):
        import terms as T
        return T.ind(T.B(c))

    def sum(self, lo, hi, fn=None):
        import terms as T
        if fn is None:
            lo, hi, fn = 0, lo, hi
        x = T.fresh("q")
        return T.mk_sum(x, T.P(lo), T.P(hi), T.P(fn(T.P(x))))

    isum = sum

    def ln(self, x):
        import terms as T
        return T.ln(T.P(x))

    def softmax(self, n, e):
        """-> k -> exp(e(k)) / sum of all exp(e(j))"""
        return lambda k: self.exp(e(k)) / self.sum(n, lambda j: self.exp(e(j)))

    def exp(self, x):
        import terms as T
        return T.exp(T.P(x))

    def psi(self, x):
        import terms as T
        return T.app("psi", T.P(x))

    def lgamma(self, x):
        import terms as T
        return T.app("lgamma", T.P(x))

    def abs(self, x):
        import terms as T
        return T.app("abs", T.P(x))

    def fdiv(self, a, b):
        import terms as T
        return T.fdiv(T.P(a), T.P(b))

    def mod(self, a, b):
        import terms as T
        return T.mod(T.P(a), T.P(b))

    def maxof(self, n, fn):
        import terms as T
        x = T.fresh("q")
        return T.mk_red("max", x, 0, n, T.P(fn(T.P(x))))

    def forall(self, name, ranges, fn):
        import terms as T
        E = self.E
        c0 = E.ctx
        idx = []
        self.n += 1
        try:
            for k, r in enumerate(ranges):
                lo, hi = r if isinstance(r, tuple) else (0, r)
                a = T.P(T.var("fa%d_%d" % (self.n, k)))
                E.ctx = E.ctx.extend(T.P(lo) <= a, a < T.P(hi))
                idx.append(a)
            if not E.ctx.consistent():
                E.note_obl(name + " (empty range)")
                return
            f = fn(*idx)
            E.obl(name, T.B(f), kind="post")
        finally:
            E.ctx = c0

    def ensure(self, name, f):
        import terms as T
        self.E.obl(name, T.B(f), kind="post")

    def lemma(self, name, f):
        import terms as T
        f = T.B(f)
        if self.E.obl(name, f, kind="lemma"):
            self.E.assume(f)

    def same(self, name, a, b):
        import terms as T
        from values import SArr, SCsr, formals
        if a is None or b is None:
            if a is b:
                self.E.note_obl(name)
            else:
                self.fail(name, "None")
            return
        if isinstance(a, SCsr):
            a = a.dense
        if isinstance(b, SCsr):
            b = b.dense
        if not isinstance(a, SArr) and not isinstance(b, SArr):
            self.ensure(name, self.eq(a, b))
            return
        if not isinstance(a, SArr) or not isinstance(b, SArr) or a.ndim != b.ndim:
            self.fail(name, "different kinds: %r, %r" % (a, b))
            return
        for x, y in zip(a.shape_, b.shape_):
            self.ensure(name + " (shape)", x.eq(y))
        fs = formals(a.ndim)
        x, y = a.body(), b.body()
        c0 = self.E.ctx
        self.E.ctx = c0.extend(*[T.And(T.P(0) <= f, f < d) for f, d in zip(fs, a.shape_)])
        try:
            self.E.obl(name, T.Iff(x, y) if isinstance(x, T.F) and isinstance(y, T.F) else T.P(x).eq(T.P(y)), kind="post")
        finally:
            self.E.ctx = c0

    def has_shape(self, name, a, shape):
        import terms as T
        if a.ndim != len(shape):
            self.fail(name, "rank %d" % a.ndim)
            return
        for x, y in zip(a.shape_, shape):
            self.ensure(name, T.P(x).eq(T.P(y)))

    def distinct(self, name, a, b):
        from values import SArr
        if isinstance(a, SArr) and isinstance(b, SArr) and a.buf is b.buf:
            self.fail(name, "arrays share memory")
        else:
            self.E.note_obl(name)

    def invariant(self, fname, inv):
        self.E.invariants[fname] = inv

    def setglobal(self, path, value):
        self.E.globals[path] = value

    def close(self, a, b):
        return self.eq(a, b)

    def derivative(self, fn, x, i):
        import terms as T
        p = x[i]
        ((m, c),) = p.terms
        ((a, e),) = m
        assert c == 1 and e == 1 and a.kind == "sel", T.show(p)
        return T.diff(T.P(fn(x)), a)

    def draws(self, kind, n, size):
        """ghost: (parameter, outcome) as functions of the number of the draw and of the component, of the n draws of random vectors of this kind"""
        import terms as T
        l = [d for d in self.E.draws.values() if d[0] == kind]
        if len(l) != 1 or len(l[0][2]) != 1 or l[0][4] > 1:
            from values import Unsupported
            raise Unsupported("%d sites drawing random vectors" % len(l))
        _, par, (x,), nm, lead, K = l[0]
        from values import formals
        f0 = formals(1)[0].as_atom()
        srt = "I" if kind == "multinomial" else "R"
        return (lambda i, k: T.subst(par, {x: T.P(i), f0: T.P(k)}),
                lambda i, k: T.sel(nm, [T.P(i)] + [T.ZERO] * lead + [T.P(k)], srt))

    def witness(self, i):
        """an index at which the facts of later np.where(condition)s are to be instantiated (no assumption)"""
        self.E.witnesses.append(i)

    def filters(self):
        """ghost: (selected index at a position, position of an index, count) of every np.where(condition) executed"""
        return self.E.filters

    def shuffles(self):
        """ghost: (value at a position, position of a selected index, count) of every shuffled array"""
        return self.E.shuffles

    def use_contract(self, path, stub):
        m, f = path.rsplit(".", 1)
        self.E.contracts[(m, f)] = stub


# ====================================================================== drivers
def prove_contract(c, root, tlimit=600):
    """-> dict(status, obligations, ...)"""
    from interp import Eng, Program, InterpRaise, PathInfeasible
    from values import Unsupported
    import smt
    import loops
    import npmodel
    t0 = time.time()
    prog = Program(root)
    pend = [[]]
    obls = []
    funcs = set()
    assumed = set()
    used = set()
    paths = 0
    unsupported = None
    reach = 0
    while pend:
        if time.time() - t0 > tlimit:
            unsupported = "time limit"
            break
        if paths > 200:
            unsupported = "too many paths"
            break
        tr = pend.pop()
        E = Eng(prog)
        E.trace = list(tr)
        v = SymV(E)
        paths += 1
        try:
            if not E.ctx.consistent():
                continue
            c.fn(v)
            if E.ctx.consistent():
                reach += 1
        except PathInfeasible:
            pass
        except InterpRaise as ex:
            if not any(not o.ok for o in E.obls):
                unsupported = "exception outside a call: %s" % ex
        except Unsupported as ex:
            unsupported = str(ex)[:600] + "  [at %s:%s]" % (E.errname if hasattr(E, "errname") else E.curname(), E.line)
            pend.extend(E.pending)
            obls += E.obls
            funcs |= E.stats["functions"]
            break
        except RecursionError:
            unsupported = "term too deep"
            break
        pend.extend(E.pending)
        obls += E.obls
        funcs |= E.stats["functions"]
        assumed |= E.assumed
        used |= E.used_contracts
        if E.squeezed:
            assumed.add("np.squeeze: extents that are symbolic are not 1")
    failed = [o for o in obls if not o.ok]
    status = "proved"
    if failed:
        status = "failed"
    elif unsupported:
        status = "unsupported"
    elif reach == 0:
        status = "vacuous"
    by = {}
    for o in obls:
        if o.ok:
            by[o.how] = by.get(o.how, 0) + 1
    return {"contract": c.name, "status": status, "paths": paths, "reachable_paths": reach,
            "obligations": len(obls), "discharged": sum(1 for o in obls if o.ok), "by_backend": by,
            "failed": [{"obligation": o.name, "kind": o.kind, "where": o.where, "reason": str(o.how)[:1500], "model": str(o.model)[:1500], "refuted": o.refuted} for o in failed[:20]],
            "unsupported": unsupported, "functions": sorted(funcs), "assumed": sorted(assumed), "contracts_used": sorted(used),
            "kinds": _count(o.kind for o in obls),
            "wall_s": round(time.time() - t0, 2), "solver": {k: (round(x, 2) if isinstance(x, float) else x) for k, x in smt.STATS.items() if k != "lemmas"}}


def _count(it):
    d = {}
    for x in it:
        d[x] = d.get(x, 0) + 1
    return d


def describe(desc):
    import scipy.sparse as ssp
    out = {}
    for k, a in desc.items():
        if ssp.issparse(a):
            out[k] = {"csr": np.asarray(a.todense()).tolist(), "dtype": str(a.dtype)}
        elif isinstance(a, np.ndarray):
            out[k] = {"array": a.tolist(), "dtype": str(a.dtype)}
        elif isinstance(a, (int, float, str, bool, type(None))):
            out[k] = a
        else:
            out[k] = repr(a)[:300]
    return out


def literals(targets):
    """the numeric literals written in the functions under contract: inputs equal to them reach edges that random
    values do not"""
    import ast
    import re
    out = set()
    for t in targets:
        parts = t.split(".")
        for i in range(len(parts) - 1, 0, -1):
            for ext in (".py", ".pyx"):
                f = None
                for r in sys.path:
                    q = __import__("os").path.join(r, *parts[:i]) + ext
                    if __import__("os").path.exists(q):
                        f = q
                        break
                if f:
                    break
            if f:
                break
        if not f:
            continue
        txt = open(f, errors="replace").read()
        name = parts[-1]
        m = re.search(r"^([ \t]*)(?:cp?def|def)\b[^\n]*\b%s\s*\(.*?(?=^\1(?:cp?def |def |class |@)|\Z)" % re.escape(name), txt, re.M | re.S)
        body = m.group(0) if m else ""
        body = re.sub(r"(?s)\'\'\'.*?\'\'\'|\"\"\".*?\"\"\"", "", body)
        body = re.sub(r"#[^\n]*", "", body)
        for x in re.findall(r"(?<![\w.])\d+\.?\d*(?:[eE][-+]?\d+)?", body):
            try:
                x = float(x)
            except ValueError:
                continue
            if 1e-3 <= x <= 1e4:
                out.add(x)
    return sorted(out)


def as_violation(ex):
    """an exception thrown by the code under test while a contract sets up its input is a violation too"""
    if isinstance(ex, Violation):
        return ex
    import traceback
    tb = traceback.extract_tb(ex.__traceback__)
    inside = [t for t in tb if "/sidetopics/" in t.filename]
    if not inside or isinstance(ex, (MemoryError, KeyboardInterrupt)):
        raise ex
    t = inside[-1]
    return Violation("no exception", "%s: %s at %s:%s" % (type(ex).__name__, ex, t.filename.split("/")[-1], t.lineno))


def test_contract(c, seed0, n, tlimit, progress=None):
    """n generated inputs on the real code"""
    lits = literals(c.targets)
    t0 = time.time()
    ran = rej = checked = 0
    i = 0
    while i < n and time.time() - t0 < tlimit:
        seed = seed0 * 1000003 + i
        if progress:
            progress(seed)
        sm = (2, 3, 4, 6, 9)[i % 5]
        v = ConcV("%s/%d" % (c.name, seed), sm)
        v.lits = lits
        i += 1
        try:
            random.seed(seed)
            np.random.seed(seed % (2 ** 31))
            c.fn(v)
            ran += 1
            checked += v.checked
        except Reject:
            rej += 1
        except Exception as ex:
            ex = as_violation(ex)
            return {"contract": c.name, "status": "violation", "seed": seed, "small": sm, "requirement": ex.name, "detail": ex.detail,
                    "input": describe(v.desc), "ran": ran, "wall_s": round(time.time() - t0, 2)}
    return {"contract": c.name, "status": "ok", "ran": ran, "rejected": rej, "checked": checked, "wall_s": round(time.time() - t0, 2)}


def replay(c, seed):
    """one recorded input again"""
    v = ConcV("%s/%d" % (c.name, seed), (2, 3, 4, 6, 9)[(seed % 1000003) % 5])
    v.lits = literals(c.targets)
    random.seed(seed)
    np.random.seed(seed % (2 ** 31))
    try:
        c.fn(v)
    except Reject:
        return "rejected"
    except Exception as ex:
        ex = as_violation(ex)
        print("input:", describe(v.desc))
        print("reproduced:", ex)
        sys.exit(1)
    return "not reproduced"
