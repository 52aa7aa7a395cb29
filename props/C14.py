"""C14 point log-likelihoods equal the documented formula"""
from spec import contract
from models import M, MODS, state, weights
from datasets import corpus
from C04 import TINY

MIN = TINY["f8"]

LIKE = {"lda_cvb0": "log_likelihood_point", "lda_cvb": "log_likelihood", "lda_vb": "log_likelihood", "lda_svb": "log_likelihood",
        "lda_vb_python": "log_likelihood", "lda_gibbs": "log_likelihood", "dmr": "log_likelihood",
        "mom_em": "log_likelihood_point", "mom_gibbs": "log_likelihood_point"}
W = "sidetopics.model.sklearn.lda_cvb."


def words(v, D, T, dt, **k):
    from sidetopics.model.common import DataSet
    w = v.csr("W", (D, T), dt, lo=1, hi=6, **k)
    if not v.sym and dt != "i4":
        w.data[...] = w.data.astype(int)
        v.refresh()
    return v.call(DataSet, w, debug=True), v.dense(w)


def admixture(v, w, theta, phi, D, K, T):
    """... * ln(sum_k weight * p(word|k)), with the kernels' documented clamp at the smallest positive number"""
    def lnp(d, t):
        p = v.sum(K, lambda k: theta(d, k) * phi(k, t))
        return v.ite(p > MIN, lambda: v.ln(p), lambda: v.ln(MIN if v.sym else float(MIN)))
    return v.sum(D, lambda d: v.sum(T, lambda t: w[d, t] * lnp(d, t)))


def clamped(v, x):
    """safe_log's documented clamp"""
    return v.ite(x >= 1E-300, lambda: x, lambda: 1E-300)


def mixture_doc(v, w, d, theta, phi, K, T, clamp=False):
    def ln(x):
        return v.ite(x >= 1E-300, lambda: v.ln(x), lambda: v.ln(1E-300)) if clamp else v.ln(x)
    return v.ln(v.sum(K, lambda k: theta(d, k) * v.exp(v.sum(T, lambda t: w[d, t] * ln(phi(k, t))))))


def norm(v, a, C):
    return lambda i, j: a[i, j] / v.sum(C, lambda c: a[i, c])


@contract("C14", targets=lambda k: [M + k[0] + "." + LIKE[k[0]]], variants=[(m, w) for m in MODS if not m.startswith("mom") for w in ("i4", "f8")])
def admixtures(v, k):
    name, wdt = k
    D, K, T = v.size("D"), v.size("K"), v.size("T")
    data, w = words(v, D, T, wdt)
    model, query, A = state(v, name, D, K, T, "f8", normal=True)
    th, ph = weights(A, name)
    if name in ("lda_cvb0", "lda_cvb"):         # collapsed counts: the priors belong to the distributions
        a, b = A["topicPrior"], model.vocabPrior
        th0, ph0 = v.old(th), v.old(ph)
        theta = lambda d, k: (th0[d, k] + a[k]) / v.sum(K, lambda c: th0[d, c] + a[c])
        phi = lambda k, t: (ph0[k, t] + b) / v.sum(T, lambda c: ph0[k, c] + b)
    else:
        theta, phi = norm(v, th, K), norm(v, ph, T)
    got = v.call(M + name + "." + LIKE[name], data, model, query, modifies=[th, ph] if "cvb" in name else [])
    v.ensure("the sum over documents and words of count * ln(sum_k weight * p(word|k))", v.eq(got, admixture(v, w, theta, phi, D, K, T)))
    if "cvb" in name:
        v.forall("the counts are left as they were (documents)", [D, K], lambda i, j: v.eq(th[i, j], th0[i, j]))
        v.forall("the counts are left as they were (words)", [K, T], lambda i, j: v.eq(ph[i, j], ph0[i, j]))


@contract("C14", targets=lambda k: [M + k[0] + ".log_likelihood_point"], variants=[("mom_em", "query"), ("mom_em", "prior"), ("mom_gibbs", "query")])
def mixtures(v, k):
    name, src = k
    D, K, T = v.size("D"), v.size("K"), v.size("T")
    data, w = words(v, D, T, "f8")
    model, query, A = state(v, name, D, K, T, "f8", normal=True)
    th, ph = weights(A, name)
    if src == "prior":
        c = A["corpusTopicDistParam"]
        theta = lambda d, k: clamped(v, c[k] / v.sum(K, lambda j: c[j]))
        query = None
    else:
        theta = lambda d, k: clamped(v, th[d, k])
    got = v.call(M + name + ".log_likelihood_point", data, model, query)
    v.ensure("the sum over documents of ln(sum_k weight * product of p(word|k)^count)",
             v.eq(got, v.sum(D, lambda d: mixture_doc(v, w, d, theta, norm(v, ph, T), K, T, name == "mom_gibbs"))))


@contract("C14", targets=lambda k: [M + k[0] + "." + LIKE[k[0]]],
          variants=[(n, q) for n in ("lda_gibbs", "lda_vb_python", "mom_gibbs") for q in ("query", "none")])
def overrides(v, k):
    """topic distributions given with the call replace those of the query state"""
    name, q = k
    D, K, T = v.size("D"), v.size("K"), v.size("T")
    data, w = words(v, D, T, "f8")
    model, query, A = state(v, name, D, K, T, "f8", normal=True, processed=v.choice("processed", [True, False]))
    _, ph = weights(A, name)
    given = v.arr("given", (D, K), "f8", lo=0, sumto=1)
    if q == "none":
        query = None
    got = v.call(M + name + "." + LIKE[name], data, model, query, topicDistOverride=given)
    phi = norm(v, ph, T)
    if name == "mom_gibbs":
        v.ensure("the sum over documents of ln(sum_k given weight * product of p(word|k)^count)",
                 v.eq(got, v.sum(D, lambda d: mixture_doc(v, w, d, lambda d, k: clamped(v, given[d, k]), phi, K, T, True))))
    else:
        v.ensure("the sum over documents and words of count * ln(sum_k given weight * p(word|k))",
                 v.eq(got, admixture(v, w, lambda d, k: given[d, k], phi, D, K, T)))


ADMIX = ["LDA_CVB0", "LDA_CVB", "LDA_VB", "LDA_VB_PYTHON_IMPL", "LDA_SVB", "LDA_GIBBS"]
MIX = ["MOM_VB", "MOM_GIBBS"]


@contract("C14", targets=[W + "TopicModel._log_likelihood_score_point"], variants=[(k, "rows") for k in ADMIX] + [(k, s) for k in MIX for s in ("rows", "vector", "one row")])
def wrapper_points(v, k):
    from sidetopics.model.sklearn.lda_cvb import TopicModel, TopicModelType
    kind, src = k
    D, K, T = v.size("D"), v.size("K"), v.size("T")
    data, w = words(v, D, T, "f8")
    phi = v.arr("components", (K, T), "f8", lo=0, sumto=1)
    sh = {"rows": (D, K), "vector": (K,), "one row": (1, K)}[src]
    th = v.arr("weights", sh, "f8", lo=0, sumto=1)
    theta = {"rows": lambda d, k: th[d, k], "vector": lambda d, k: th[k], "one row": lambda d, k: th[0, k]}[src]
    got = v.call(TopicModel._log_likelihood_score_point, getattr(TopicModelType, kind), data, th, phi)
    if kind in ADMIX:
        v.ensure("the sum over words of count * ln(sum_k weight * p(word|k)), summed over the documents",
                 v.eq(v.method(got, "sum"), admixture(v, w, theta, lambda k, t: phi[k, t], D, K, T)))
    else:
        v.has_shape("one value per document", got, (D,))
        v.forall("ln(sum_k weight * product of p(word|k)^count) of each document", [D],
                 lambda d: v.eq(got[d], mixture_doc(v, w, d, lambda d, k: clamped(v, theta(d, k)), lambda k, t: phi[k, t], K, T, True)))
