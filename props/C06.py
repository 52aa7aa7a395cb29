"""C06 overflow-safe functions equal the functions they stand for"""
from spec import contract

SF = "sidetopics.util.sig_fast."
SU = "sidetopics.util.sigmoid_utils."
OS = "sidetopics.util.overflow_safe."


def softdot(v, A, r, c, w=None):
    """sum_i w_i sum_j A_ij softmax(A_i)_j"""
    def row(i):
        if v.sym:
            return v.sum(c, lambda j: A[i, j] * v.exp(A[i, j])) / v.sum(c, lambda j: v.exp(A[i, j]))
        m = max(float(A[i, j]) for j in range(c))
        return v.sum(c, lambda j: float(A[i, j]) * v.exp(float(A[i, j]) - m)) / v.sum(c, lambda j: v.exp(float(A[i, j]) - m))
    return v.sum(r, lambda i: (1 if w is None else w[i]) * row(i))


def near(v, dt):
    if not v.sym and dt == "f4":
        v.tol = 2e-3


@contract("C06", targets=lambda d: [SF + "selfSoftDot_" + d], variants=["f8", "f4"])
def self_soft_dot(v, dt):
    near(v, dt)
    r, c = v.size("r"), v.size("c")
    A = v.arr("A", (r, c), dt, wide=True)
    v.ensure("sum over rows of the dot product with the row's softmax", v.eq(v.call(SF + "selfSoftDot_" + dt, A), softdot(v, A, r, c)))


@contract("C06", targets=lambda d: [SF + "selfSoftDot_%s_%s" % d], variants=[("f8", "i8"), ("f4", "i8"), ("f8", "f8"), ("f4", "f4")])
def scaled_soft_dot_kernel(v, d):
    dt, st = d
    near(v, dt)
    r, c = v.size("r"), v.size("c")
    A = v.arr("A", (r, c), dt, wide=True)
    w = v.arr("w", (r,), st)
    v.ensure("rows weighted by the matching scale", v.eq(v.call(SF + "selfSoftDot_%s_%s" % d, A, w), softdot(v, A, r, c, w)))


@contract("C06", targets=[SU + "scaledSelfSoftDot", SU + "selfSoftDot"], variants=[("f8", "i8"), ("f8", "f8"), ("f8", "i4"), ("f8", "f4"), ("f4", "i8"), ("f4", "f4"), ("f4", "f8"), ("f4", "i4")])
def soft_dot(v, d):
    dt, st = d
    near(v, dt)
    r, c = v.size("r"), v.size("c")
    A = v.arr("A", (r, c), dt, wide=True)
    w = v.arr("w", (r,), st)
    v.ensure("rows weighted by the matching scale", v.eq(v.call(SU + "scaledSelfSoftDot", A, w), softdot(v, A, r, c, w)))
    v.ensure("unweighted", v.eq(v.call(SU + "selfSoftDot", A), softdot(v, A, r, c)))


@contract("C06", targets=[SU + "rowwise_softmax", SU + "colwise_softmax"], variants=[(a, d, o) for a in ("row", "col") for d in ("f8", "f4") for o in ("new", "out", "inplace")])
def softmax(v, k):
    axis, dt, how = k
    near(v, dt)
    r, c = v.size("r"), v.size("c")
    A = v.arr("A", (r, c), dt, wide=True)
    A0 = v.old(A)
    f = SU + ("rowwise_softmax" if axis == "row" else "colwise_softmax")
    if how == "new":
        S = v.call(f, A)
    elif how == "out":
        S = v.arr("out", (r, c), dt)
        res = v.call(f, A, S, modifies=[S])
        v.same("the out argument is the result", res, S)
    else:
        S = v.call(f, A, A, modifies=[A])
    v.has_shape("same shape", S, (r, c))

    def ex(i, j):
        if v.sym:
            return v.exp(A0[i, j])
        m = max(A0[i, q] for q in range(c)) if axis == "row" else max(A0[q, j] for q in range(r))
        return v.exp(float(A0[i, j]) - float(m))
    if axis == "row":
        v.forall("exp(a_ij) / sum_j exp(a_ij)", [r, c], lambda i, j: v.eq(S[i, j] * v.sum(c, lambda q: ex(i, q)), ex(i, j)))
        v.forall("rows sum to one", [r], lambda i: v.eq(v.sum(c, lambda j: S[i, j]), 1))
    else:
        v.forall("exp(a_ij) / sum_i exp(a_ij)", [r, c], lambda i, j: v.eq(S[i, j] * v.sum(r, lambda q: ex(q, j)), ex(i, j)))
        v.forall("columns sum to one", [c], lambda j: v.eq(v.sum(r, lambda i: S[i, j]), 1))
    v.forall("non-negative", [r, c], lambda i, j: v.nonneg(S[i, j]))


VB = "sidetopics.model.lda_vb_python."


@contract("C06", targets=lambda a: [VB + "_inplace_softmax_%swise" % a], variants=["col", "row"])
def softmax_in_place(v, axis):
    r, c = v.size("r"), v.size("c")
    A = v.arr("A", (r, c), "f8", wide=True)
    A0 = v.old(A)
    v.call(VB + "_inplace_softmax_%swise" % axis, A, modifies=[A])

    def ex(i, j):
        if v.sym:
            return v.exp(A0[i, j])
        return v.exp(float(A0[i, j]) - float(max(A0[i, q] for q in range(c)) if axis == "row" else max(A0[q, j] for q in range(r))))
    n, total = (c, lambda i, j: v.sum(c, lambda q: ex(i, q))) if axis == "row" else (r, lambda i, j: v.sum(r, lambda q: ex(q, j)))
    v.forall("exp(a_ij) over the sum of its %s" % axis, [r, c], lambda i, j: v.eq(A[i, j] * total(i, j), ex(i, j)))
    if axis == "row":
        v.forall("rows sum to one", [r], lambda i: v.eq(v.sum(c, lambda j: A[i, j]), 1))
    else:
        v.forall("columns sum to one", [c], lambda j: v.eq(v.sum(r, lambda i: A[i, j]), 1))
    v.forall("non-negative", [r, c], lambda i, j: v.nonneg(A[i, j]))


@contract("C06", targets=[SU + "lse"])
def log_sum_exp(v):
    r, c = v.size("r"), v.size("c")
    A = v.arr("A", (r, c), "f8")
    L = v.call(SU + "lse", A)
    v.has_shape("one value per row", L, (r,))
    v.forall("ln sum exp", [r], lambda i: v.eq(L[i], v.ln(v.sum(c, lambda j: v.exp(A[i, j])))))


def around(v, x, dt):
    """values on both sides of the clamp"""
    t = tiny(dt)
    for i in v.rng.sample(range(x.size), v.rng.randrange(0, x.size + 1)):
        x.flat[i] = v.rng.choice([0.0, t, t * 1.01, t * .99, t * 1e-3, 1.0, t * 1e30, 1e30])
    v.refresh()


def tiny(dt):
    return 1E-35 if dt == "f4" else 1E-300


@contract("C06", targets=[OS + "safe_log"], variants=[(d, n, o) for d in ("f8", "f4") for n in (1, 2) for o in ("new", "out", "inplace")])
def safe_log(v, k):
    dt, nd, how = k
    near(v, dt)
    sh = [v.size("r"), v.size("c")][:nd]
    x = v.arr("x", sh, dt)
    if not v.sym:
        around(v, x, dt)
    x0 = v.old(x)
    f = OS + "safe_log"
    if how == "new":
        L = v.call(f, x)
    elif how == "out":
        L = v.arr("out", sh, dt)
        v.same("the out argument is the result", v.call(f, x, L, modifies=[L]), L)
    else:
        L = v.call(f, x, x, modifies=[x])
        v.same("the out argument is the result", L, x)
    v.has_shape("same shape", L, sh)
    t = tiny(dt)
    v.forall("ln x, clamped below at ln of the smallest positive value", sh,
             lambda *i: v.eq(L[i], v.ite(x0[i] >= t, lambda: v.ln(x0[i]), lambda: v.ln(t))))


@contract("C06", targets=[OS + "safe_x_log_x"], variants=[(d, n) for d in ("f8", "f4") for n in (1, 2)])
def safe_x_log_x(v, k):
    dt, nd = k
    near(v, dt)
    sh = [v.size("r"), v.size("c")][:nd]
    x = v.arr("x", sh, dt, lo=0, strict=False)
    if not v.sym:
        around(v, x, dt)
    L = v.call(OS + "safe_x_log_x", x)
    v.has_shape("same shape", L, sh)
    v.forall("x ln x, zero at zero", sh, lambda *i: v.eq(L[i], v.ite(x[i] > 0, lambda: x[i] * v.ln(float(x[i]) if not v.sym else x[i]), lambda: 0)))


@contract("C06", targets=[OS + "safe_log_one_plus_exp_of"], variants=[1, 2])
def log1pexp(v, nd):
    sh = [v.size("r"), v.size("c")][:nd]
    x = v.arr("x", sh, "f8", wide=True)
    L = v.call(OS + "safe_log_one_plus_exp_of", x)
    v.has_shape("same shape", L, sh)

    def want(t):
        if not v.sym:
            import numpy as np
            return float(np.logaddexp(0, t))
        # the documented clamps: exp(x) up to -17, x beyond 33, exact in between
        return v.ite(t <= -17, lambda: v.exp(t), lambda: v.ite(t > 33, lambda: t, lambda: v.ln(1 + v.exp(t))))
    v.forall("ln(1+exp x)", sh, lambda *i: v.eq(L[i], want(x[i])))


@contract("C06", targets=[OS + "lnDetOfDiagMat"])
def ln_det_diag(v):
    n = v.size("n")
    X = v.arr("X", (n, n), "f8", lo=0)
    v.ensure("sum of the logarithms of the diagonal", v.eq(v.call(OS + "lnDetOfDiagMat", X), v.sum(n, lambda i: v.ln(X[i, i]))))


@contract("C06", targets=[SU + "lse", "sidetopics.util.sparse_elementwise.lse"])
def log_sum_exp_sparse_module(v):
    r, c = v.size("r"), v.size("c")
    A = v.arr("A", (r, c), "f8")
    L = v.call("sidetopics.util.sparse_elementwise.lse", A)
    v.has_shape("one value per row", L, (r,))
    v.forall("ln sum exp", [r], lambda i: v.eq(L[i], v.ln(v.sum(c, lambda j: v.exp(A[i, j])))))


@contract("C06", targets=[OS + "_very_safe_log_one_plus_exp_of", OS + "safe_log_one_plus"], mode="bounded")
def log1pexp_rational(v):
    """a rational approximation: equal to the function only up to rounding, so checked on generated values"""
    import numpy as np
    n = v.size("n")
    x = v.arr("x", (n,), "f8", wide=True)
    L = v.call(OS + "_very_safe_log_one_plus_exp_of", x)
    v.forall("ln(1+exp x)", [n], lambda i: v.eq(L[i], float(np.logaddexp(0, x[i]))))
    y = v.arr("y", (n,), "f8", lo=-.35, hi=5)
    L = v.call(OS + "safe_log_one_plus", y)
    v.forall("ln(1+y)", [n], lambda i: v.eq(L[i], float(np.log1p(y[i]))))


@contract("C06", targets=[OS + "safe_log_det", OS + "safeDet"], mode="bounded")
def log_det(v):
    """LAPACK determinants are external: compared with the product over the diagonal of a triangular matrix"""
    import numpy as np
    n = v.size("n")
    d = v.arr("d", (n,), "f8", lo=.01)
    X = v.arr("X", (n, n), "f8")
    X[...] = np.tril(X, -1)
    X[np.diag_indices(n)] = d
    v.refresh()
    v.ensure("ln |det|", v.eq(v.call(OS + "safe_log_det", X), v.sum(n, lambda i: v.ln(d[i]))))
    v.ensure("determinant", v.eq(v.call(OS + "safeDet", X), v.prod(n, lambda i: d[i])))
