"""C04 sparse kernels equal their dense definitions"""
from spec import contract

F = "sidetopics.util.se_fast."
S = "sidetopics.util.sparse_elementwise."
from fractions import Fraction
TINY = {"f8": Fraction(1, 2 ** 1022), "f4": Fraction(1, 2 ** 126)}


def near(v, dt):
    if not v.sym and dt == "f4":
        v.tol = 2e-3


def factors(v, n, dt, R, K, C):
    """B and C; in trials positive where the product divides, otherwise also zero and negative products"""
    lo = None
    if not v.sym:
        lo = .01 if "Quotient" in n else v.rng.choice([.01, 0, None])
    return v.arr("B", (R, K), dt, lo=lo, strict=False), v.arr("C", (K, C), dt, lo=lo, strict=False)


def setup(v, dt, n="Quotient"):
    near(v, dt)
    R, C, K = v.size("R"), v.size("C"), v.size("K")
    A = v.csr("A", (R, C), dt)
    B, Cm = factors(v, n, dt, R, K, C)
    return R, C, K, A, B, Cm


def each(v, name, A, R, f, lo=0, hi=None):
    """f(row, position) for every stored position of the rows lo..hi-1"""
    if v.sym:
        n = A.indptr[R]
        v.forall(name, [(A.indptr[lo], A.indptr[R if hi is None else hi])], lambda q: f(v.owner(A, q), q))
    else:
        for r in range(lo, R if hi is None else hi):
            v.forall(name, [(A.indptr[r], A.indptr[r + 1])], lambda q: f(r, q))


@contract("C04", targets=lambda k: [F + "sparseScalar%s_%s" % k],
          variants=[(n, d) for n in ("ProductOfDot", "QuotientOfNormedDot") for d in ("f8", "f4")])
def kernel(v, k):
    n, dt = k
    R, C, K, A, B, Cm = setup(v, dt, n)
    out = v.arr("out", (A.indptr[R],), dt)
    args = [A.data, A.indices, A.indptr, B, Cm]
    if "Normed" in n:
        d = v.arr("d", (K,), dt, lo=.1)
        args.append(d)
        dot = lambda r, c: v.sum(K, lambda i: B[r, i] * Cm[i, c] / d[i])
    else:
        dot = lambda r, c: v.sum(K, lambda i: B[r, i] * Cm[i, c])
    v.call(F + "sparseScalar%s_%s" % k, *args, out, modifies=[out])
    if "Product" in n:
        each(v, "stored value is A * dot", A, R, lambda r, q: v.eq(out[q], A.data[q] * dot(r, A.indices[q])))
    else:
        each(v, "stored value is A / dot", A, R, lambda r, q: v.eq(out[q], A.data[q] / dot(r, A.indices[q])))


def value(v, n, dt, a, p):
    if n == "QuotientOfDot":
        return a / p
    if n == "ProductOfDot":
        return a * p
    return a * v.ite(p > TINY[dt], lambda: v.ln(p), lambda: v.ln(TINY[dt] if v.sym else float(TINY[dt])))


@contract("C04", targets=lambda k: [F + "sparseScalar%s_%s" % k],
          variants=[(n, d) for n in ("QuotientOfDot", "ProductOfSafeLnDot") for d in ("f8", "f4")])
def ranged_kernel(v, k):
    n, dt = k
    near(v, dt)
    R, C, K = v.size("R"), v.size("C"), v.size("K")
    A = v.csr("A", (R, C), dt)
    s = v.int("start", 0, R + 1)
    e = v.int("end", 0, R + 1)
    v.assume(s <= e)
    B, Cm = factors(v, n, dt, e - s, K, C)
    n0 = A.indptr[s]
    out = v.arr("out", (A.indptr[e] - n0,), dt)
    v.call(F + "sparseScalar%s_%s" % k, A.data, A.indices, A.indptr, B, Cm, out, s, e, modifies=[out])
    dot = lambda r, c: v.sum(K, lambda i: B[r - s, i] * Cm[i, c])
    each(v, "value at each stored position of the selected rows", A, R,
         lambda r, q: v.eq(out[q - n0], value(v, n, dt, A.data[q], dot(r, A.indices[q]))), s, e)


@contract("C04", targets=[F + "sparseScalarProductOfSafeLnDot_f8_full"])
def safe_ln_full(v):
    R, C, K, A, B, Cm = setup(v, "f8", "ProductOfSafeLnDot")
    out = v.arr("out", (A.indptr[R],), "f8")
    v.call(F + "sparseScalarProductOfSafeLnDot_f8_full", A.data, A.indices, A.indptr, B, Cm, out, modifies=[out])
    dot = lambda r, c: v.sum(K, lambda i: B[r, i] * Cm[i, c])
    each(v, "value at each stored position", A, R, lambda r, q: v.eq(out[q], value(v, "ln", "f8", A.data[q], dot(r, A.indices[q]))))


def logistic(v, dt, x):
    lo, hi = (-17, 33) if dt == "f8" else (-11, 13.8)
    if not v.sym:
        import numpy as np
        return float(np.logaddexp(0, float(x)))
    return v.ite(x <= lo, lambda: v.exp(x), lambda: v.ite(x <= -lo, lambda: v.ln(1 + v.exp(x)), lambda: v.ite(x <= hi, lambda: x + v.exp(-x), lambda: x)))


@contract("C04", targets=lambda d: [F + "scaledSumOfLnOnePlusExp_" + d, F + "safe_log_one_plus_exp_" + d, S + "scaledSumOfLnOnePlusExp"], variants=["f8", "f4"])
def sum_ln_one_plus_exp(v, dt):
    near(v, dt)
    r, c = v.size("r"), v.size("c")
    w = v.arr("w", (r,), dt)
    A = v.arr("A", (r, c), dt, wide=True)
    want = v.sum(r, lambda i: v.sum(c, lambda j: w[i] * logistic(v, dt, A[i, j])))
    v.ensure("weighted sum of ln(1+exp x)", v.eq(v.call(F + "scaledSumOfLnOnePlusExp_" + dt, w, A), want))
    v.ensure("through the dispatcher", v.eq(v.call(S + "scaledSumOfLnOnePlusExp", w, A), want))
    v.ensure("one value", v.eq(v.call(F + "safe_log_one_plus_exp_" + dt, A[0, 0]), logistic(v, dt, A[0, 0])))


@contract("C04", targets=lambda d: [F + "entropyOfDot_" + d, S + "entropyOfDot"] if d != "py" else [S + "entropyOfDot_py"], variants=["f8", "f4", "py"])
def entropy_of_dot(v, dt):
    py = dt == "py"
    dt = "f8" if py else dt
    near(v, dt)
    D, K, T = v.size("D"), v.size("K"), v.size("T")
    A = v.arr("topics", (D, K), dt, lo=0)
    B = v.arr("vocab", (K, T), dt, lo=0)

    def z(d, k, t):
        return A[d, k] / v.sum(K, lambda j: A[d, j]) * B[k, t]
    want = -v.sum(D, lambda d: v.sum(K, lambda k: v.sum(T, lambda t: z(d, k, t) * v.ln(z(d, k, t)))))
    for f in ([S + "entropyOfDot_py"] if py else [F + "entropyOfDot_" + dt, S + "entropyOfDot"]):
        v.ensure("entropy of the outer products", v.eq(v.call(f, A, B), want))


WR = {"QuotientOfDot": "sparseScalarQuotientOfDot", "ProductOfDot": "sparseScalarProductOfDot", "ProductOfSafeLnDot": "sparseScalarProductOfSafeLnDot"}


@contract("C04", targets=lambda k: [S + WR[k[0]]], variants=[(n, d, o) for n in WR for d in ("f8", "f4") for o in ("new", "out")])
def wrapper(v, k):
    n, dt, how = k
    R, C, K, A, B, Cm = setup(v, dt, n)
    dot = lambda r, c: v.sum(K, lambda i: B[r, i] * Cm[i, c])
    f = S + WR[n]
    if how == "new":
        out = v.call(f, A, B, Cm)
    else:
        out = v.old(A)
        v.track("out", out)
        r = v.call(f, A, B, Cm, out=out, modifies=[out])
        v.same("the out argument is the result", r.data, out.data)
    v.has_shape("shape of A", out, (R, C))
    v.same("indices of A", out.indices, A.indices)
    v.same("row pointers of A", out.indptr, A.indptr)
    each(v, "value at each stored position", A, R, lambda r, q: v.eq(out.data[q], value(v, n, dt, A.data[q], dot(r, A.indices[q]))))


@contract("C04", targets=[S + "sparseScalarQuotientOfNormedDot"], variants=[(d, o) for d in ("f8", "f4") for o in ("new", "out")])
def wrapper_normed(v, k):
    dt, how = k
    R, C, K, A, B, Cm = setup(v, dt)
    d = v.arr("d", (K,), dt, lo=.1)
    f = S + "sparseScalarQuotientOfNormedDot"
    if how == "new":
        out = v.call(f, A, B, Cm, d)
    else:
        out = v.old(A)
        v.track("out", out)
        r = v.call(f, A, B, Cm, d, out=out, modifies=[out])
        v.same("the out argument is the result", r.data, out.data)
    v.has_shape("shape of A", out, (R, C))
    v.same("indices of A", out.indices, A.indices)
    v.same("row pointers of A", out.indptr, A.indptr)
    each(v, "value at each stored position", A, R, lambda r, q: v.eq(out.data[q], A.data[q] / v.sum(K, lambda i: B[r, i] * Cm[i, A.indices[q]] / d[i])))


@contract("C04", targets=lambda k: [S + WR[k[0]]], variants=[(n, d) for n in ("QuotientOfDot", "ProductOfSafeLnDot") for d in ("f8", "f4")])
def wrapper_range(v, k):
    n, dt = k
    near(v, dt)
    R, C, K = v.size("R"), v.size("C"), v.size("K")
    A = v.csr("A", (R, C), dt)
    s = v.int("start", 0, R)
    e = v.int("end", 1, R + 1)
    v.assume(s < e)
    B, Cm = factors(v, n, dt, e - s, K, C)
    out = v.call(S + WR[n], A, B, Cm, start=s, end=e)
    v.has_shape("the selected rows", out, (e - s, C))
    dot = lambda r, c: v.sum(K, lambda i: B[r - s, i] * Cm[i, c])
    n0 = A.indptr[s]
    each(v, "value at each stored position of the selected rows", A, R,
         lambda r, q: v.And(v.eq(out.data[q - n0], value(v, n, dt, A.data[q], dot(r, A.indices[q]))), v.eq(out.indices[q - n0], A.indices[q])), s, e)
    v.forall("row pointers of the selected rows", [(s, e + 1)], lambda r: v.eq(out.indptr[r - s], A.indptr[r] - n0))


@contract("C04", targets=[S + "_sparseScalarQuotientOfDot_py", S + "_sparseScalarProductOfDot_py", S + "_sparseScalarProductOfSafeLnDot_py", S + "csr_indices"],
          variants=[(n, o) for n in WR for o in ("new", "out")])
def fallback(v, k):
    n, how = k
    R, C, K, A, B, Cm = setup(v, "f8", n)
    dot = lambda r, c: v.sum(K, lambda i: B[r, i] * Cm[i, c])
    f = S + "_" + WR[n] + "_py"
    if how == "new":
        out = v.call(f, A, B, Cm)
    else:
        out = v.csr("out", (R, C), "f8") if v.sym and False else v.old(A)
        v.track("out", out)
        r = v.call(f, A, B, Cm, out=out, modifies=[out])
        v.same("the out argument is the result", r.data, out.data)
    v.same("indices of A", out.indices, A.indices)
    v.same("row pointers of A", out.indptr, A.indptr)

    def val(r, q):
        p = dot(r, A.indices[q])
        if n == "ProductOfSafeLnDot":
            return A.data[q] * v.ite(p >= 1E-300, lambda: v.ln(p), lambda: v.ln(1E-300))
        return value(v, n, "f8", A.data[q], p)
    each(v, "value at each stored position", A, R, lambda r, q: v.eq(out.data[q], val(r, q)))


@contract("C04", targets=[S + "sparseScalarProductOf"], variants=["new", "out"])
def product_of(v, how):
    R, C, K, A, _, _ = setup(v, "f8")
    B = v.arr("dense", (R, C), "f8")
    if how == "new":
        out = v.call(S + "sparseScalarProductOf", A, B)
    else:
        out = v.old(A)
        v.track("out", out)
        v.call(S + "sparseScalarProductOf", A, B, out=out, modifies=[out])
    v.same("indices of A", out.indices, A.indices)
    each(v, "value at each stored position", A, R, lambda r, q: v.eq(out.data[q], A.data[q] * B[r, A.indices[q]]))
