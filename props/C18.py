"""C18 DMR optimises its objective with the true gradient"""
from spec import contract

M = "sidetopics.model.dmr."


def inputs(v):
    D, K, F, N = v.size("D"), v.size("K", 2), v.size("F", 2), v.size("N")
    S = v.int("samples", 1, N)
    k = v.int("topic", 0, K - 1)
    X = v.csr("X", (D, F), "f8", lo=-2, hi=2, strict=False)
    Wt = v.arr("W", (K, F), "f8", lo=-2, hi=2, strict=False)
    w = v.arr("weights", (F,), "f8", lo=-2, hi=2, strict=False)
    n = v.arr("n_dk_samples", (D, K, N), "u2", lo=0, hi=9, strict=False)
    sigma = v.real("sigma", 0, 4)
    B = v.size("batch")
    v.setglobal(M + "BatchSize", B)
    x, W = v.dense(X), Wt

    def alpha(w):
        """exp of the document's features times the topic's weights, the given ones for topic k"""
        return lambda d, j: v.exp(v.sum(F, lambda f: x[d, f] * v.ite(v.eq(j, k), lambda: w[f], lambda: W[j, f])))
    return D, K, F, S, k, X, x, Wt, w, n, sigma, alpha


def neg_log_posterior(v, D, K, F, S, k, w, n, sigma, alpha):
    """the Dirichlet-multinomial likelihood of the counts, averaged over the samples, and the Gaussian prior of the weights; terms without the weights left out"""
    a = alpha(w)
    tot = lambda d: v.sum(K, lambda j: a(d, j))
    like = v.sum(D, lambda d: v.lgamma(tot(d)) - v.lgamma(a(d, k))
                 + v.sum(S, lambda s: v.lgamma(a(d, k) + n[d, k, s]) - v.lgamma(tot(d) + v.sum(K, lambda j: n[d, j, s]))) / S)
    return -(like - v.sum(F, lambda f: w[f] * w[f]) / (2 * sigma))


@contract("C18", targets=[M + "objective"])
def objective(v):
    D, K, F, S, k, X, x, W, w, n, sigma, alpha = inputs(v)
    w2 = v.arr("other weights", (F,), "f8", lo=-2, hi=2, strict=False)
    one = v.call(M + "objective", w, k, W, S, n, X, sigma)
    two = v.call(M + "objective", w2, k, W, S, n, X, sigma)
    v.ensure("the negative log-posterior of the weights, up to a constant",
             v.eq(one - two, neg_log_posterior(v, D, K, F, S, k, w, n, sigma, alpha) - neg_log_posterior(v, D, K, F, S, k, w2, n, sigma, alpha)))


@contract("C18", targets=[M + "gradient"])
def gradient(v):
    D, K, F, S, k, X, x, W, w, n, sigma, alpha = inputs(v)
    a = alpha(w)
    tot = lambda d: v.sum(K, lambda j: a(d, j))
    got = v.call(M + "gradient", w, k, W, S, n, X, sigma)
    v.has_shape("one entry per weight", got, (F,))

    def deriv(f):
        return -(v.sum(D, lambda d: x[d, f] * a(d, k) * (v.psi(tot(d)) - v.psi(a(d, k))
                 + v.sum(S, lambda s: v.psi(a(d, k) + n[d, k, s]) - v.psi(tot(d) + v.sum(K, lambda j: n[d, j, s]))) / S)) - w[f] / sigma)
    v.forall("the derivative of the negative log-posterior", [F], lambda f: v.eq(got[f], deriv(f)))
    v.forall("that formula is the derivative of the objective's", [F],
             lambda f: v.close(v.derivative(lambda w: neg_log_posterior(v, D, K, F, S, k, w, n, sigma, alpha), w, f), deriv(f)))


@contract("C18", targets=[M + "updateWeights"], mode="bounded")
def handed_over(v):
    """what the optimiser is given for each topic is that topic's posterior with its own derivative, over the samples counted, and what it finds is kept"""
    import numpy as np
    import sidetopics.model.dmr as m
    from types import SimpleNamespace
    D, K, F, N = v.size("D"), v.size("K", 2), v.size("F"), v.size("N")
    S = v.int("samples", 1, N)
    X = v.csr("X", (D, F), "f8", lo=-2, hi=2, strict=False)
    W = v.arr("W", (K, F), "f8", lo=-2, hi=2, strict=False)
    n = v.arr("n_dk_samples", (D, K, N), "u2", lo=0, hi=9, strict=False)
    found = v.arr("optima", (K, F), "f8", lo=-2, hi=2, strict=False)
    trial = v.arr("tried", (2, F), "f8", lo=-2, hi=2, strict=False)
    x, W0 = v.dense(X), W.copy()
    v.setglobal(M + "Sigma", v.real("sigma", 0, 4))
    v.setglobal(M + "BatchSize", v.size("batch"))
    ks = []

    def minimize(fun, x0, args=(), method=None, jac=None, options=None, **kw):
        k = len(ks)
        ks.append(k)

        def alpha(w):
            return lambda d, j: np.exp(sum(x[d, f] * (w[f] if j == k else W0[j, f]) for f in range(F)))
        doc = lambda w: neg_log_posterior(v, D, K, F, S, k, w, n, m.Sigma, alpha)
        a, b = trial
        v.ensure("the function to minimise is the topic's negative log-posterior", v.eq(fun(a, *args) - fun(b, *args), doc(a) - doc(b)))
        g = np.ravel(jac(a, *args))
        v.ensure("its gradient has one entry per weight", len(g) == F)
        for f in range(F):
            v.ensure("its gradient is its derivative", v.close(v.derivative(doc, a, f), g[f]))
        return SimpleNamespace(x=found[k].copy(), success=True, message="")
    old, m.optim = m.optim, SimpleNamespace(minimize=minimize)
    try:
        v.call(m.updateWeights, n, S, X, W, modifies=[W])
    finally:
        m.optim = old
    v.ensure("every topic's weights are optimised once", ks == list(range(K)))
    v.forall("the weights found are kept", [K, F], lambda k, f: v.eq(W[k, f], found[k, f]))
