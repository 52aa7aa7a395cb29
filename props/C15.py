"""C15 model copies are equal and independent"""
from spec import contract
from models import M, MODS, LDA, state, mod

ABSENT = {"lda_cvb0": ("n_dk", "n_kt", "n_k"), "lda_cvb": ("n_dk", "n_kt", "n_k", "v_dk", "v_kt", "v_k"), "lda_vb": ("wordDists",), "lda_svb": ("wordDists",),
          "lda_vb_python": ("wordDists",), "lda_gibbs": ("topicSum", "vocabSum"), "dmr": ("topicSum", "vocabSum", "n_dk_samples"),
          "mom_em": ("wordDistParam", "corpusTopicDistParam"), "mom_gibbs": ("wordDists",)}


def compare(v, model, got, A):
    v.ensure("a model of the same type", type(got) is type(model))
    arrs = [getattr(got, f) for f in A if f in model._fields and A[f] is not None]
    for i, a in enumerate(arrs):
        for b in arrs[:i]:
            v.distinct("the copy's fields share no array with each other", a, b)
    for f in model._fields:
        a, b = getattr(model, f), getattr(got, f)
        if f in A and A[f] is None:
            v.ensure("an absent field stays absent: " + f, v.is_none(b))
        elif f in A:
            v.same("the copy's field equals the original's: " + f, b, a)
            v.distinct("the copy shares no array with the original: " + f, b, a)
        elif f in ("dtype", "name", "processed"):
            v.ensure("the copy's field equals the original's: " + f, a is b or a == b)
        else:
            v.ensure("the copy's field equals the original's: " + f, v.eq(a, b))


@contract("C15", targets=lambda k: [M + k[0] + ".newModelFromExisting"], variants=[(m, n) for m in MODS for n in ("trained", "untrained", "fresh", "scalar priors")])
def copies(v, k):
    name, st = k
    D, K, T = v.size("D"), v.size("K"), v.size("T")
    model, _, A = state(v, name, D, K, T, none=ABSENT[name] if st == "untrained" else ())
    if st == "scalar priors":
        A = dict(A)
        A.pop("vocabPrior", None)
        A.pop("topicPrior")
        model = model._replace(topicPrior=v.real("scalar topicPrior", 0), vocabPrior=v.real("scalar vocabPrior", 0))
    if st == "fresh" and "processed" in model._fields:
        model = model._replace(processed=False)
    got = v.call(M + name + ".newModelFromExisting", model)
    compare(v, model, got, A)
