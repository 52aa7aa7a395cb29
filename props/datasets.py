"""corpora whose every row is recognisable, and what it means for a derived corpus to keep rows together"""
from spec import contract


def corpus(v, D, kind="all", T=None, square=True, order=None, words=None, feats=None):
    """-> DataSet over D documents, parts; kind: which of feats, links, list/array categories, dictionary it has"""
    from sidetopics.model.common import DataSet
    T = v.size("T") if T is None else T
    W = words if words is not None else v.csr("W", (D, T), "i4", lo=1, hi=9, opaque=True)
    X = L = cats = names = None
    if kind in ("feats", "all"):
        X = feats if feats is not None else v.csr("X", (D, v.size("F")), "f8", opaque=True)
    if kind in ("links", "all"):
        L = v.csr("L", (D, D if square else D + 1), "i4", lo=1, hi=9, opaque=True)
    if kind in ("array", "all"):
        cats = v.arr("categories", (D,), "i4", gen=lambda g, i: 100 + i)
    if kind == "list":
        cats = v.arr("categories", (D,), "i4") if v.sym else [["c%d" % i, "x"] for i in range(D)]
        if v.sym:
            cats.is_list = True
    if kind in ("all", "array"):
        names = v.arr("dictionary", (T,), "i4", gen=lambda g, i: 500 + i)
    if kind == "list":
        names = v.arr("dictionary", (T,), "i4") if v.sym else ["w%d" % i for i in range(T)]
        if v.sym:
            names.is_list = True
    if order is None:
        order = v.arr("order", (D,), "i4", lo=0, gen=lambda g, i: 1000 + 7 * i)
    d = v.call(DataSet, W, X, L, names, cats, order, debug=True)
    return d, {"T": T, "words": W, "feats": X, "links": L, "doc_categories": cats, "word_dict": names, "order": order, "D": D}


def rows_follow(v, when, got, sel, parts, square=True, words=None, order=True):
    """row i of every part of the derived corpus is row sel[i] of the same part of the original"""
    n = v.shape(sel)[0] if hasattr(sel, "shape") else len(sel)
    T = parts["T"]
    for p in ("words", "feats", "links"):
        A, B = v.get(got, p), parts[p]
        if B is None:
            v.ensure("%s: no %s" % (when, p), v.is_none(A))
            continue
        v.ensure("%s: one row of %s per document" % (when, p), v.eq(v.shape(A)[0], n))
        w = v.shape(B)[1]
        a, b = v.dense(A), v.dense(B)
        if p == "links" and square:
            v.ensure("%s: columns of square links follow the rows" % when, v.eq(v.shape(A)[1], n))
            v.forall("%s: links between the documents of the rows" % when, [n, n], lambda i, j: v.eq(a[i, j], b[sel[i], sel[j]]))
        else:
            v.ensure("%s: all columns of %s" % (when, p), v.eq(v.shape(A)[1], w))
            v.forall("%s: row of %s belongs to the document of the row" % (when, p), [n, w], lambda i, j: v.eq(a[i, j], b[sel[i], j]))
    c, c0 = v.get(got, "doc_categories"), parts["doc_categories"]
    if c0 is None:
        v.ensure("%s: no categories" % when, v.is_none(c))
    else:
        v.ensure("%s: one category per document" % when, v.eq(v.shape(c)[0] if hasattr(c, "shape") else len(c), n))
        v.forall("%s: category belongs to the document of the row" % when, [n], lambda i: v.eq(c[i], c0[sel[i]]) if not isinstance(c0, list) else c[i] == c0[sel[i]])
    if order:
        o, o0 = v.get(got, "order"), parts["order"]
        v.ensure("%s: one original position per document" % when, v.eq(v.shape(o)[0], n))
        v.forall("%s: original position of the document of the row" % when, [n], lambda i: v.eq(o[i], o0[sel[i]]))
    if not v.sym and parts["word_dict"] is not None:
        v.ensure("%s: the dictionary is kept" % when, list(v.get(got, "word_dict")) == list(parts["word_dict"]))
