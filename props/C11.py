"""C11 bag-of-words expansion loses and invents no token"""
from spec import contract

M = "sidetopics.model."


def words(v, dt):
    D, T = v.size("D"), v.size("T")
    if v.sym:
        v.assume(T <= 65536)
    W = v.csr("W", (D, T), dt, lo=0, hi=6, counts=True)
    return D, T, W


@contract("C11", targets=lambda k: [M + "%s_fast.toWordList_%s" % k, M + k[0] + ".toWordList"],
          variants=[(m, d) for m in ("lda_cvb0", "lda_cvb") for d in ("i32", "f32", "f64")], mode="bounded")
def word_list(v, k):
    m, d = k
    D, T, W = words(v, {"i32": "i4", "f32": "f4", "f64": "f8"}[d])
    v.stream()
    L, lens = v.call(M + m + ".toWordList", W)
    v.has_shape("one length per document", lens, (D,))
    n = v.dense(W)
    v.forall("length of a document", [D], lambda i: v.eq(lens[i], v.sum(T, lambda t: n[i, t])))
    v.forall("as many tokens of a word as the matrix counts", [D, T], lambda i, t: v.eq(v.sum(lens[i], lambda j: v.ind(L[i, j] == t)), n[i, t]))
    v.forall("every token is a word of the vocabulary", [D], lambda i: v.And(*[0 <= L[i, j] < T for j in range(int(lens[i]))]))


@contract("C11", targets=lambda m: [M + m + ".flatten", M + m + ".flatten_native"], variants=["lda_gibbs_fast", "dmr_fast"])
def flatten(v, m):
    D, T, W = words(v, "i4" if "gibbs" in m else "u2")
    L, lens = v.call(M + m + ".flatten", W)
    n, at = v.dense(W), v.starts(W)
    v.has_shape("one length per document", lens, (D,))
    v.forall("length of a document", [D], lambda d: v.eq(lens[d], v.sum(T, lambda t: n[d, t])))
    v.has_shape("one entry per token", L, (at(D),))
    v.forall("as many tokens of a word as the matrix counts", [D, T], lambda d, t: v.eq(v.sum(at(d + 1) - at(d), lambda j: v.ind(v.eq(L[at(d) + j], t))), n[d, t]))


@contract("C11", targets=[M + "lda_gibbs_fast.flatten", M + "dmr_fast.flatten"], variants=["lda_gibbs_fast", "dmr_fast"], mode="bounded")
def flatten_extremes(v, m):
    """word identifiers and counts at the edge of the storage types"""
    import numpy as np
    import scipy.sparse as ssp
    dt = np.int32 if "gibbs" in m else np.uint16
    T = v.choice("T", [65536, 65535, 70, 300])
    D = v.size("D")
    A = np.zeros((D, T), dtype=dt)
    for _ in range(v.size("cells", 1, 8)):
        A[v.rng.randrange(D), v.rng.choice([0, T - 1, T // 2, 255 % T, 256 % T])] = v.rng.choice([1, 2, 255, 256, 300])
    W = ssp.csr_matrix(A)
    v.track("W", W)
    L, lens = v.call(M + m + ".flatten", W)
    off = 0
    for i in range(D):
        n = int(A[i].astype(np.int64).sum())
        v.ensure("length of a document", int(lens[i]) == n)
        v.ensure("as many tokens of a word as the matrix counts", np.array_equal(np.bincount(L[off:off + n], minlength=T), A[i]))
        off += n
    v.ensure("one entry per token", len(L) == off)
    big = ssp.csr_matrix((1, 65537), dtype=dt)
    v.raises(M + m + ".flatten", big, exc=("ValueError",))
