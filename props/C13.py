"""C13 reported topic and word distributions are probabilities"""
from spec import contract
from models import M, MODS, state, weights


def distribution(v, what, got, par, R, C):
    v.has_shape("%s: one row each" % what, got, (R, C))
    v.forall("%s: no negative probability" % what, [R, C], lambda i, j: v.le(0, got[i, j]))
    v.forall("%s: each row sums to one" % what, [R], lambda i: v.eq(v.sum(C, lambda j: got[i, j]), 1))
    v.forall("%s: proportional to the state" % what, [R, C], lambda i, j: v.eq(got[i, j] * v.sum(C, lambda k: par[i, k]), par[i, j]))


@contract("C13", targets=lambda k: [M + k[0] + ".wordDists", M + k[0] + ".topicDists"], variants=[(m, d) for m in MODS for d in ("f8", "f4")])
def accessors(v, k):
    name, dt = k
    if dt == "f4" and not v.sym:
        v.tol = 2e-3
    D, K, T = v.size("D"), v.size("K"), v.size("T")
    model, query, A = state(v, name, D, K, T, dt, normal=True)
    tops, words = weights(A, name)
    distribution(v, "topics", v.call(M + name + ".topicDists", query), tops, D, K)
    distribution(v, "words", v.call(M + name + ".wordDists", model), words, K, T)
