"""C02 dataset transformations keep each document's data together"""
from spec import contract
from datasets import corpus, rows_follow

CM = "sidetopics.model.common."
DS = CM + "DataSet."
KINDS = ["none", "feats", "links", "list", "array", "all"]


@contract("C02", targets=[DS + "_reorder", CM + "_reorder_link_matrix"], variants=KINDS + ["rectangular"])
def reorder(v, kind):
    D, n = v.size("D"), v.size("n")
    d, parts = corpus(v, D, "links" if kind == "rectangular" else kind, square=kind != "rectangular")
    order = v.arr("selection", (n,), v.choice("type", ["i4", "i8"]), lo=0, hi=D)
    v.method(d, "_reorder", order)
    rows_follow(v, "reordered", d, order, parts, square=kind != "rectangular")


@contract("C02", targets=[CM + "DataSet"], variants=KINDS)
def limit(v, kind):
    """a limited corpus is the corpus of the first documents"""
    from sidetopics.model.common import DataSet
    D = v.size("D")
    d, parts = corpus(v, D, kind)
    m = v.int("limit", 0, D + 3)
    e = v.call(DataSet, parts["words"], parts["feats"], parts["links"], parts["word_dict"], parts["doc_categories"], parts["order"], m, debug=True)
    n = v.ite(v.And(0 < m, m < D), m, D)
    n = v.shape(v.get(e, "words"))[0] if v.sym else n
    v.ensure("as many documents as the limit allows", v.eq(v.get(e, "doc_count"), v.ite(v.And(0 < m, m < D), m, D)))
    rows_follow(v, "limited", e, _Id(n), parts)


class _Id:
    """the selection of the first n rows"""
    def __init__(self, n):
        self.shape = (n,)

    def __getitem__(self, i):
        return i


@contract("C02", targets=[CM + "DataSet"])
def default_order(v):
    from sidetopics.model.common import DataSet
    D = v.size("D")
    W = v.csr("W", (D, v.size("T")), "i4", lo=1, hi=9, opaque=True)
    d = v.call(DataSet, W, debug=True)
    o = v.get(d, "order")
    v.has_shape("one position per document", o, (D,))
    v.forall("documents start at their own positions", [D], lambda i: v.eq(o[i], i))


@contract("C02", targets=[DS + "copy", DS + "copy_with_changes"], variants=[(k, h) for k in ("none", "all", "list") for h in ("shallow", "deep", "changes")])
def copies(v, k):
    kind, how = k
    D = v.size("D")
    d, parts = corpus(v, D, kind)
    if how == "changes":
        W = v.csr("W2", (D, parts["T"]), "i4", lo=1, hi=9, opaque=True)
        parts = dict(parts, words=W)
        e = v.method(d, "copy_with_changes", words=W)
    else:
        e = v.method(d, "copy", how == "deep")
    rows_follow(v, "copied", e, _Id(D), parts)
    if how == "deep":
        v.ensure("a deep copy has its own words", v.get(e, "words") is not parts["words"])
        if not v.sym:
            v.distinct("a deep copy has its own words", e.words.data, parts["words"].data)
            v.distinct("a deep copy has its own order", e.order, parts["order"])


def uniq(v, W, T, i):
    return v.sum(T, lambda t: v.ind(v.Not(v.eq(W[i, t], 0))))


@contract("C02", targets=[DS + "prune_and_shuffle", DS + "_reorder"], variants=["none", "feats", "list", "array", "links", "all"])
def prune(v, kind):
    """min_link_count of zero: every document with enough distinct words, in an arbitrary order"""
    D = v.size("D", 1, 9)
    d, parts = corpus(v, D, kind)
    W = v.dense(parts["words"])
    T = parts["T"]
    m = v.int("distinct words", 0, 4)
    seed = v.int("seed", 0, 1000)
    r = v.method(d, "prune_and_shuffle", m, 0, seed)
    o = v.get(d, "order")
    v.same("the order is returned", r, o)
    n = v.shape(o)[0]
    if v.sym:
        sel, rank = Ghost(v.shuffles()[-1]), v.shuffles()[-1][1]
    else:
        sel = [int(x - 1000) // 7 for x in o]
        v.ensure("original positions are those of documents", all(0 <= s < D and 1000 + 7 * s == x for s, x in zip(sel, o)))
        v.ensure("no document occurs twice", len(set(sel)) == len(sel))
        sel = _Sel(sel)
    v.forall("only documents with enough distinct words stay", [n], lambda i: uniq(v, W, T, sel[i]) >= m)
    if v.sym:
        v.forall("every document with enough distinct words stays", [D], lambda i: v.Implies(uniq(v, W, T, i) >= m, v.And(0 <= rank(i), rank(i) < n, v.eq(sel[rank(i)], i))))
    else:
        v.ensure("every document with enough distinct words stays", {i for i in range(D) if uniq(v, W, T, i) >= m} == set(sel.a))
    rows_follow(v, "pruned", d, sel, parts)


class Ghost:
    """the selection a condition or a shuffle made, in the verifier's model"""
    def __init__(self, g):
        self.at, self.rank, n = g
        self.shape = (n,)

    def __getitem__(self, i):
        return self.at(i)


class _Cols:
    """the selected columns of a matrix"""
    def __init__(self, m, sel):
        self.m, self.sel, self.shape = m, sel, (m.shape[0], sel.shape[0])

    def __getitem__(self, ij):
        return self.m[ij[0], self.sel[ij[1]]]


class _Sel:
    def __init__(self, a):
        self.a, self.shape = a, (len(a),)

    def __getitem__(self, i):
        return self.a[i]


@contract("C02", targets=[DS + "prune_and_shuffle", DS + "_reorder"], variants=["links", "all"], mode="bounded")
def prune_links(v, kind):
    """with a minimal number of links: the largest set of documents with enough words and enough links within the set"""
    import numpy as np
    D = v.size("D", 1, 9)
    d, parts = corpus(v, D, kind)
    W, L = v.dense(parts["words"]), v.dense(parts["links"])
    m, k = v.int("distinct words", 0, 3), v.int("links", 1, 12)
    v.method(d, "prune_and_shuffle", m, k, v.int("seed", 0, 1000))
    o = v.get(d, "order")
    sel = [int(x - 1000) // 7 for x in o]
    v.ensure("original positions are those of documents", all(0 <= s < D and 1000 + 7 * s == x for s, x in zip(sel, o)) and len(set(sel)) == len(sel))
    keep = [i for i in range(D) if (W[i] != 0).sum() >= m]
    while True:
        nxt = [i for i in keep if L[i, keep].sum() >= k]
        if nxt == keep:
            break
        keep = nxt
    v.ensure("exactly the documents with enough distinct words and links stay", sorted(sel) == keep)
    rows_follow(v, "pruned", d, _Sel(sel), parts)


@contract("C02", targets=[DS + "words_with_min_freq"], variants=["none", "list", "array", "all"])
def vocabulary(v, kind):
    D = v.size("D")
    d, parts = corpus(v, D, kind)
    W, T = v.dense(parts["words"]), parts["T"]
    m = v.int("documents", 0, 5)
    if parts["word_dict"] is None:
        v.assume(kind == "none")
    e = v.method(d, "words_with_min_freq", m)
    df = lambda t: v.sum(D, lambda i: v.ind(v.Not(v.eq(W[i, t], 0))))
    A = v.dense(v.get(e, "words"))
    if v.sym:
        n = v.shape(A)[1]
        sel, rank = Ghost(v.filters()[-1]), v.filters()[-1][1]
        v.forall("only words of enough documents stay", [n], lambda j: df(sel[j]) >= m)
        v.forall("every word of enough documents stays", [T], lambda t: v.Implies(df(t) >= m, v.And(0 <= rank(t), rank(t) < n, v.eq(sel[rank(t)], t))))
    else:
        sel = [t for t in range(T) if df(t) >= m]
        n = len(sel)
    v.has_shape("exactly the words of enough documents stay", A, (D, n))
    v.forall("the column of a word holds its counts", [D, n], lambda i, j: v.eq(A[i, j], W[i, sel[j]]))
    N = parts["word_dict"]
    if N is None:
        v.ensure("no dictionary", v.is_none(v.get(e, "word_dict")))
    else:
        M = v.get(e, "word_dict")
        if v.sym:
            v.forall("the entry of a column names its word", [n], lambda j: v.eq(M[j], N[sel[j]]))
        else:
            v.ensure("the entry of a column names its word", len(M) == n and all(M[j] == N[sel[j]] for j in range(n)))
    rows_follow(v, "vocabulary", e, _Id(D), dict(parts, words=v.get(e, "words"), word_dict=None))


@contract("C02", targets=[DS + "split_on_feature"], variants=["feats", "all"])
def feature_split(v, kind):
    D, F = v.size("D", 1, 8), v.size("F", 2)
    X = v.csr("X", (D, F), "i4" if v.sym else v.choice("features type", ["f8", "f4", "i4"]), lo=0, density=.4, opaque=True)
    d, parts = corpus(v, D, kind, feats=X)
    x = v.dense(X)
    fs = v.choice("features", [[0], [1], [0, 1], [1, 0]])
    tr = lambda i: v.And(*[v.eq(x[i, f], 0) for f in fs])
    qu = lambda i: x[i, fs[0]] > 0
    if v.sym:       # neither side is empty
        i, j = v.int("a training document", 0, D), v.int("a query document", 0, D)
        v.assume(v.And(i < D, j < D, tr(i), qu(j)))
        v.witness(i)
        v.witness(j)
    else:
        a, b = [i for i in range(D) if tr(i)], [i for i in range(D) if qu(i)]
        v.assume(a and b)
    train, query, docs = v.method(d, "split_on_feature", list(fs))
    if v.sym:
        a, b = [Ghost(g) for g in v.filters()[-2:]]
        v.has_shape("as many training documents as selected", docs, a.shape)
        v.forall("the training documents are the selected ones", [a.shape[0]], lambda i: v.eq(docs[i], a[i]))
        v.forall("training documents lack the features", [a.shape[0]], lambda i: tr(a[i]))
        v.forall("every document without the features is for training", [D], lambda i: v.Implies(tr(i), v.And(0 <= a.rank(i), a.rank(i) < a.shape[0], v.eq(a[a.rank(i)], i))))
        v.forall("query documents have the first feature", [b.shape[0]], lambda i: qu(b[i]))
        v.forall("every document with the first feature is for querying", [D], lambda i: v.Implies(qu(i), v.And(0 <= b.rank(i), b.rank(i) < b.shape[0], v.eq(b[b.rank(i)], i))))
        rows_follow(v, "training", train, a, parts)
        rows_follow(v, "query", query, b, dict(parts, links=None) if kind == "feats" else dict(parts, links=_Cols(v.dense(parts["links"]), a)), square=False)
        return
    v.ensure("the training documents are those without the features", list(docs) == a)
    rows_follow(v, "training", train, _Sel(a), parts)
    rows_follow(v, "query", query, _Sel(b), dict(parts, links=None) if kind == "feats" else dict(parts, links=parts["links"][:, a]), square=False)


@contract("C02", targets=[CM + "dropcols_fancy", CM + "dropcols_coo"], variants=[(f, m) for f in ("dropcols_fancy", "dropcols_coo") for m in ("csr", "coo", "csc")], mode="bounded")
def drop_columns(v, k):
    f, fmt = k
    import numpy as np
    D, T = v.size("D"), v.size("T", 2)
    M = v.csr("M", (D, T), "i4", lo=1, hi=9)
    A = v.dense(M)
    drop = [v.rng.randrange(T) for _ in range(v.rng.randrange(0, T))]
    if f == "dropcols_fancy" and fmt == "coo":
        fmt = "csr"
    X = M.asformat(fmt)
    if f == "dropcols_coo" and v.rng.random() < .5 or fmt == "csr" and f == "dropcols_coo":
        X = M.tocoo() if v.rng.random() < .5 else X
    R = v.call(CM + f, X, drop)
    keep = [t for t in range(T) if t not in drop]
    v.has_shape("the other columns stay", R, (D, len(keep)))
    v.same("the columns that stay hold their counts", R.toarray(), A[:, keep])
    v.same("the given matrix is left unchanged", X.toarray(), A)


@contract("C02", targets=[DS + "convert_to_undirected_graph", DS + "convert_to_binary_link_matrix", DS + "convert_to_dtypes", DS + "add_intercept_to_feats_if_required"], variants=["all"])
def in_place(v, kind):
    """operations on one part leave the other parts alone"""
    D = v.size("D")
    d, parts = corpus(v, D, kind)
    L = v.old(v.dense(parts["links"]))
    op = v.choice("operation", ["convert_to_undirected_graph", "convert_to_dtypes"])
    if op == "convert_to_undirected_graph":
        v.method(d, op)
        M = v.dense(v.get(d, "links"))
        v.forall("a link exists in a direction if it did in either", [D, D], lambda i, j: v.Iff(v.Not(v.eq(M[i, j], 0)), v.Or(v.Not(v.eq(L[i, j], 0)), v.Not(v.eq(L[j, i], 0)))))
        v.forall("links are symmetric", [D, D], lambda i, j: v.eq(M[i, j], M[j, i]))
        rows_follow(v, op, d, _Id(D), dict(parts, links=v.get(d, "links")))
    else:
        import numpy as np
        v.method(d, op, np.float64, np.float32, np.int32)
        rows_follow(v, op, d, _Id(D), parts)


@contract("C02", targets=[DS + "from_files"], mode="bounded")
def files(v):
    import os, pickle, shutil, tempfile
    from sidetopics.model.common import DataSet
    D = v.size("D")
    d, parts = corpus(v, D, v.choice("parts", ["all", "list", "links", "none"]))
    n = v.size("n", 1, D + 1)
    order = v.choice("ordered", [True, False])
    order = v.rng.sample(range(D), n) if order else None
    m = v.int("limit", 0, D + 2)
    t = tempfile.mkdtemp()
    try:
        def put(nm, x):
            if x is None:
                return None
            f = os.path.join(t, nm)
            pickle.dump(x, open(f, "wb"))
            return f
        e = v.call(DataSet.from_files, put("w", parts["words"]), put("f", parts["feats"]), put("l", parts["links"]), order=order, limit=m)
    finally:
        shutil.rmtree(t)
    sel = list(order) if order is not None else list(range(D))
    if m > 0:
        sel = sel[:m]
    rows_follow(v, "loaded", e, _Sel(sel), dict(parts, doc_categories=None, word_dict=None, order=list(range(D))))
