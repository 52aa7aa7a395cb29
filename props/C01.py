"""C01 cross-validation folds partition the documents"""
from spec import contract
from datasets import corpus, rows_follow

CV = "sidetopics.model.common.DataSet.cross_valid_split"


def folds(v, lo=1):
    from sidetopics.model.common import DataSet
    D = v.size("D", lo, 12 if not v.sym else None)
    n = v.int("folds", 2, 9 if not v.sym else None)
    f = v.int("fold", 0, n)
    return D, n, f


@contract("C01", targets=[CV + "_indices"])
def indices(v):
    D, n, f = folds(v)
    W = v.csr("W", (D, v.size("T")), "i4", lo=1, hi=3, opaque=True)
    d = v.call("sidetopics.model.common.DataSet", W, debug=True)
    train, query = v.method(d, "cross_valid_split_indices", f, n)
    a, b = v.shape(train)[0], v.shape(query)[0]
    # |train| + |query| positions that hold every one of |train| + |query| = D documents hold each exactly once
    v.ensure("as many selected documents as documents", v.eq(a + b, D))
    q = -v.fdiv(-D, n)      # documents of one fold
    v.ensure("a query fold holds 1/folds of the documents, rounded up", v.eq(b, q))
    v.forall("every document is selected once, for training or for querying", [D], lambda i: selected(v, i, train, query, a, b, D, q, f))
    v.forall("only documents are selected for training", [a], lambda j: v.And(0 <= train[j], train[j] < D))
    v.forall("only documents are selected for querying", [b], lambda j: v.And(0 <= query[j], query[j] < D))
    if not v.sym:
        v.ensure("every document is selected exactly once", sorted(list(train) + list(query)) == list(range(D)))
        seen = set()
        for g in range(n):
            seen |= set(d.cross_valid_split_indices(g, n)[1])
        v.ensure("every document is a query document of some fold", seen == set(range(D)))


def selected(v, i, train, query, a, b, D, q, f):
    if not v.sym:
        return sum(1 for x in train if x == i) + sum(1 for x in query if x == i) == 1
    p = v.mod(i - q * f, D)         # where document i stands when counting from the first query document
    return v.And(v.Implies(p < b, v.eq(query[p], i)), v.Implies(p >= b, v.eq(train[p - b], i)))


@contract("C01", targets=[CV + "_indices"])
def every_document_is_queried(v):
    """document i is a query document of fold i div (documents of one fold)"""
    D = v.size("D", 1, 12 if not v.sym else None)
    n = v.int("folds", 2, 9 if not v.sym else None)
    i = v.int("document", 0, D)
    q = -v.fdiv(-D, n)
    f = v.fdiv(i, q)
    v.lemma("the fold exists", v.And(0 <= f, f < n))
    W = v.csr("W", (D, v.size("T")), "i4", lo=1, hi=3, opaque=True)
    d = v.call("sidetopics.model.common.DataSet", W, debug=True)
    train, query = v.method(d, "cross_valid_split_indices", f, n)
    p = v.mod(i, q)
    v.ensure("within the fold", v.And(0 <= p, p < v.shape(query)[0]))
    v.ensure("the document is one of the fold's query documents", v.eq(query[p], i))


@contract("C01", targets=[CV, CV + "_indices"], variants=["words", "feats", "links", "list", "array", "all", "none"])
def split(v, kind):
    D, n, f = folds(v, 2)
    d, parts = corpus(v, D, kind)
    q = -v.fdiv(-D, n)
    v.assume(q < D)
    tr, qu = v.method(d, "cross_valid_split_indices", f, n)
    train, query = v.method(d, "cross_valid_split", f, n)
    rows_follow(v, "training", train, tr, parts, square=False)
    rows_follow(v, "query", query, qu, parts, square=False)
