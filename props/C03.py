"""C03 train/evaluation splits conserve every observation"""
from spec import contract
from datasets import corpus, rows_follow
from C02 import _Id, _Sel

CM = "sidetopics.model.common."
DS = CM + "DataSet."


def whole(v, prop="est_prop"):
    return v.choice(prop, [.5, .25, .9, .01, 1.0])


@contract("C03", targets=[DS + "doc_completion_split"], variants=["none", "links", "list", "array"])
def completion(v, kind):
    D, T = v.size("D"), v.size("T")
    W = v.csr("W", (D, T), "i4", lo=1, hi=9 if v.sym else v.choice("most", [2, 4, 40]))
    if not v.sym and v.choice("counts type", ["i4", "f8"]) == "f8":
        W = W.astype(float)
    d, parts = corpus(v, D, kind, words=W, T=T)
    w = v.dense(W)
    p = v.real("proportion", 0, 1) if v.sym else whole(v)
    est, evl = v.method(d, "doc_completion_split", 0, v.int("seed", 0, 1000), p, True)
    a, b = v.dense(v.get(est, "words")), v.dense(v.get(evl, "words"))
    v.has_shape("a row per document, a column per word", a, (D, T))
    v.has_shape("a row per document, a column per word", b, (D, T))
    v.forall("the halves add up to the counts", [D, T], lambda i, t: v.eq(a[i, t] + b[i, t], w[i, t]))
    v.forall("no negative count in the first half", [D, T], lambda i, t: a[i, t] >= 0)
    v.forall("no negative count in the second half", [D, T], lambda i, t: b[i, t] >= 0)
    rows_follow(v, "first half", est, _Id(D), dict(parts, words=v.get(est, "words")))
    rows_follow(v, "second half", evl, _Id(D), dict(parts, words=v.get(evl, "words")))


@contract("C03", targets=[DS + "doc_completion_split"], variants=["none", "list", "array"], mode="bounded")
def completion_pruned(v, kind):
    """with a minimum number of distinct words: only documents with enough of them in both halves stay"""
    D, T = v.size("D"), v.size("T")
    W = v.csr("W", (D, T), "i4", lo=1, hi=v.choice("most", [2, 4, 40]))
    d, parts = corpus(v, D, kind, words=W, T=T)
    w = v.dense(W)
    p, s, m = whole(v), v.int("seed", 0, 1000), v.int("distinct words", 1, 4)
    full = v.method(d, "doc_completion_split", 0, s, p, True)
    f, g = full[0].words.toarray(), full[1].words.toarray()
    keep = [i for i in range(D) if (f[i] != 0).sum() >= m and (g[i] != 0).sum() >= m]
    v.assume(keep)
    est, evl = v.method(d, "doc_completion_split", m, s, p, True)
    a, b = v.dense(est.words), v.dense(evl.words)
    v.has_shape("the documents with enough words in both halves", a, (len(keep), T))
    v.has_shape("the documents with enough words in both halves", b, (len(keep), T))
    v.forall("the halves add up to the counts", [len(keep), T], lambda i, t: v.eq(a[i, t] + b[i, t], w[keep[i], t]))
    v.forall("no negative count", [len(keep), T], lambda i, t: v.And(a[i, t] >= 0, b[i, t] >= 0))
    sel = _Sel(keep)
    rows_follow(v, "first half", est, sel, dict(parts, words=None) if False else _sub(parts, est, keep))
    rows_follow(v, "second half", evl, sel, _sub(parts, evl, keep))


def _sub(parts, got, keep):
    """the words were checked above: take them as they are"""
    import scipy.sparse as ssp
    import numpy as np
    W = np.zeros(parts["words"].shape)
    W[keep] = got.words.toarray()
    return dict(parts, words=ssp.csr_matrix(W))


@contract("C03", targets=[DS + "link_prediction_split", CM + "_split", CM + "_split_symm", CM + "_symm_csr"], variants=["symmetric", "directed", "rectangular"], mode="bounded")
def link_split(v, kind):
    import numpy as np
    D = v.size("D")
    C = v.size("C") if kind == "rectangular" else D
    L = v.csr("L", (D, C), v.choice("links type", ["i4", "f8"]), lo=1, hi=9, symmetric=kind == "symmetric")
    d, parts = corpus(v, D, "none")
    from sidetopics.model.common import DataSet
    d = v.call(DataSet, parts["words"], None, L, None, None, parts["order"], debug=True)
    l = v.old(v.dense(L))
    tr, qu = v.method(d, "link_prediction_split", kind == "symmetric", v.int("seed", 0, 1000))
    a, b = v.dense(tr.links), v.dense(qu.links)
    v.has_shape("the shape of the links", a, (D, C))
    v.has_shape("the shape of the links", b, (D, C))
    v.forall("the parts add up to the links", [D, C], lambda i, j: v.eq(a[i, j] + b[i, j], l[i, j]))
    v.forall("no link in both parts", [D, C], lambda i, j: v.Or(v.eq(a[i, j], 0), v.eq(b[i, j], 0)))
    if kind == "symmetric":
        v.forall("symmetric parts", [D, D], lambda i, j: v.And(v.eq(a[i, j], a[j, i]), v.eq(b[i, j], b[j, i])))
    n = int((np.tril(l) if kind == "symmetric" else l).astype(bool).sum())
    v.ensure("half of the links in each part", int((np.tril(a) if kind == "symmetric" else a).astype(bool).sum()) == n // 2)
    for nm, e in (("training", tr), ("query", qu)):
        rows_follow(v, nm, e, _Id(D), dict(parts, links=e.links), square=False)


@contract("C03", targets=[DS + "folded_link_prediction_split", CM + "_folded_split"], variants=["square", "rectangular"], mode="bounded")
def folded_split(v, kind):
    D = v.size("D")
    C = v.size("C") if kind == "rectangular" else D
    L = v.csr("L", (D, C), v.choice("links type", ["i4", "f8"]), lo=1, hi=9)
    d, parts = corpus(v, D, "none")
    from sidetopics.model.common import DataSet
    d = v.call(DataSet, parts["words"], None, L, None, None, parts["order"], debug=True)
    l = v.old(v.dense(L))
    F = v.int("folds", 1, 5)
    m = v.int("least links", 0, 5)
    when = [[0] * C for _ in range(D)]
    for f in range(F):
        tr, qu, docs = v.method(d, "folded_link_prediction_split", m, f, F)
        a, b = v.dense(tr.links), v.dense(qu.links)
        v.has_shape("the shape of the links", a, (D, C))
        v.has_shape("the shape of the links", b, (D, C))
        v.forall("the parts add up to the links", [D, C], lambda i, j: v.eq(a[i, j] + b[i, j], l[i, j]))
        v.forall("no link in both parts", [D, C], lambda i, j: v.Or(v.eq(a[i, j], 0), v.eq(b[i, j], 0)))
        n = (l != 0).sum(axis=1)
        v.ensure("exactly the documents with enough links are split", list(docs) == [i for i in range(D) if n[i] >= m])
        v.ensure("other documents keep their links", all((b[i] == 0).all() for i in range(D) if n[i] < m))
        v.ensure("an equal share of the links of a document", all((b[i] != 0).sum() == n[i] // F for i in docs))
        for i in range(D):
            for j in range(C):
                when[i][j] += int(b[i, j] != 0)
        for nm, e in (("training", tr), ("query", qu)):
            rows_follow(v, nm, e, _Id(D), dict(parts, links=e.links), square=False)
    v.ensure("no link is a query link of two folds", max(map(max, when)) <= 1)
