"""C07 evaluation metrics follow their definitions and ranges"""
from spec import contract

EV = "sidetopics.model.evals."


@contract("C07", targets=[EV + "perplexity_from_like"])
def perplexity(v):
    l = v.real("log likelihood")
    n = v.real("token count", 0)
    v.ensure("exp(-log likelihood / tokens)", v.eq(v.call(EV + "perplexity_from_like", l, n), v.exp(-l / n)))
    k = v.int("whole token count", 1, 2000)
    v.ensure("exp(-log likelihood / tokens) of a whole number of tokens", v.eq(v.call(EV + "perplexity_from_like", l, k), v.exp(-l / k)))


@contract("C07", targets=[EV + "perplexity_from_like", EV + "word_perplexity"], variants=["words", "links"])
def corpus_perplexity(v, kind):
    from sidetopics.model.common import DataSet
    D, T = v.size("D"), v.size("T")
    W = v.csr("W", (D, T), "i4", lo=1, hi=5, rowmin=1)
    L = v.csr("L", (D, D), "i4", lo=1, hi=3) if kind == "links" else None
    d = v.call(DataSet, W, None, L, debug=True)
    l = v.real("log likelihood")
    w, x = v.dense(W), None if L is None else v.dense(L)
    words = v.sum(D, lambda i: v.sum(T, lambda t: w[i, t]))
    links = 0 if L is None else v.sum(D, lambda i: v.sum(D, lambda j: x[i, j]))
    v.assume(words > 0)
    got = v.call(EV + "perplexity_from_like", l, d)
    v.ensure("a corpus counts its words and links", v.eq(got, v.exp(-l / (words + links))))
    got = v.call(EV + "word_perplexity", lambda data, model, query: l, None, None, d)
    v.ensure("word perplexity counts words only", v.eq(got, v.exp(-l / words)))


def links(v, complete):
    import numpy as np
    D, Q = v.size("D"), v.size("Q", 2)
    E = v.csr("expected", (D, Q), "i4", lo=1, hi=2, density=v.choice("density", [.2, .5]))
    P = v.csr("estimated", (D, Q), "f8", lo=0, hi=1)
    if complete:
        import scipy.sparse as ssp
        P = ssp.csr_matrix(P + E.astype(float) * .01)
    if v.choice("perfect", [0, 0, 1]):
        P = P.tolil()
        for d in range(D):
            for q in E[d].indices:
                P[d, q] = 2 + v.rng.random()
        P = P.tocsr()
    for d in range(D):      # distinct probabilities: the ranking is determined
        a = P.data[P.indptr[d]:P.indptr[d + 1]]
        v.assume(len(set(a)) == len(a))
    v.track("estimated", P)
    v.track("expected", E)
    exp = [set(E[d].indices) for d in range(D)]
    rank = []
    for d in range(D):
        r = P[d]
        rank.append([q for _, q in sorted(zip(-r.data, r.indices))])
    return D, Q, E, P, exp, rank


@contract("C07", targets=[EV + "mean_prec_rec_at"], mode="bounded")
def precision_recall(v):
    import copy
    D, Q, E, P, exp, rank = links(v, False)
    at = v.choice("at", [None, 1, 2, 3, [1], [1, 3], [2, 1, 5], [100]])
    ms = [100] if at is None else at if isinstance(at, list) else [at]
    allg = (-1, -1)
    groups = v.choice("groups", [None, [(1, 1), (2, 3)], [(1, 2)], [allg, (1, 1)], [(1, 1), (2, 99), allg], []])
    g0, a0 = copy.deepcopy(groups), copy.deepcopy(at)
    prec, rec, cnt = v.call(EV + "mean_prec_rec_at", E, P, *([] if at is None and groups is None else [at, groups] if groups is not None else [at]))
    v.ensure("the given options are left unchanged", groups == g0 and at == a0)
    want = list(groups or [])
    if allg not in want:
        want.append(allg)
    v.ensure("one result per group", set(prec) == set(rec) == set(cnt) == set(want))
    for g in want:
        docs = [d for d in range(D) if exp[d] and (g == allg or g[0] <= len(exp[d]) <= g[1])]
        v.ensure("a group counts its documents with expected links", cnt[g] == len(docs))
        v.ensure("one value per cut-off", len(prec[g]) == len(ms) and len(rec[g]) == len(ms))
        for i, m in enumerate(ms):
            v.ensure("precision and recall lie in [0, 1]", 0 <= prec[g][i] <= 1 + 1e-12 and 0 <= rec[g][i] <= 1 + 1e-12)
            hits = [len(exp[d] & set(rank[d][:m])) for d in docs]
            n = max(1, len(docs))
            v.ensure("recall at m is hits / expected links, averaged", v.eq(rec[g][i], sum(h / len(exp[d]) for h, d in zip(hits, docs)) / n))
            if all(len(rank[d]) >= m for d in docs):
                v.ensure("precision at m is hits / m, averaged", v.eq(prec[g][i], sum(h / m for h in hits) / n))


@contract("C07", targets=[EV + "mean_reciprocal_rank"], mode="bounded")
def reciprocal_rank(v):
    D, Q, E, P, exp, rank = links(v, True)
    got = v.call(EV + "mean_reciprocal_rank", E, P)
    rr = [1. / (rank[d].index(e) + 1) for d in range(D) for e in exp[d]]
    v.ensure("lies in [0, 1]", 0 <= got <= 1)
    v.ensure("the mean of one over the rank of each expected link", v.eq(got, sum(rr) / max(1, len(rr))))


@contract("C07", targets=[EV + "mean_average_prec"], mode="bounded")
def average_precision(v):
    D, Q, E, P, exp, rank = links(v, v.choice("complete", [True, False]))
    got = v.call(EV + "mean_average_prec", E, P)
    aps = []
    for d in range(D):
        if exp[d]:
            ps = [len(exp[d] & set(rank[d][:m + 1])) / (m + 1) for m in range(len(rank[d])) if rank[d][m] in exp[d]]
            aps.append(sum(ps) / len(exp[d]))
    v.ensure("lies in [0, 1]", 0 <= got <= 1 + 1e-12)
    v.ensure("average precision, over documents with expected links", v.eq(got, sum(aps) / max(1, len(aps))))
    if aps and all(set(rank[d][:len(exp[d])]) == exp[d] for d in range(D)):
        v.ensure("one for a perfect ranking", v.eq(got, 1))
