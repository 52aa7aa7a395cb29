"""arbitrary states of every kind of model"""
import importlib

M = "sidetopics.model."
MODS = ["lda_cvb0", "lda_cvb", "lda_vb", "lda_svb", "lda_vb_python", "lda_gibbs", "dmr", "mom_em", "mom_gibbs"]
LDA = [m for m in MODS if not m.startswith("mom")]


def mod(name):
    return importlib.import_module(M + name)


def state(v, name, D, K, T, dt="f8", normal=False, none=(), processed=True):
    """-> (model, query state, {field: array}) with positive parameters; normal: what the accessors require"""
    import numpy as np
    m = mod(name)
    A = {}

    def arr(n, shape, dtype=dt, lo=0, **k):
        if n in none:
            A[n] = None
        else:
            A[n] = v.arr(n, shape, dtype, lo=lo, **k)
        return A[n]
    f = dict(K=K, T=T, dtype=np.float32 if dt == "f4" else np.float64, name=m.MODEL_NAME, processed=processed)
    q = dict(processed=processed)
    f["topicPrior"] = arr("topicPrior", (K,))
    f["vocabPrior"] = v.real("vocabPrior", 0)
    if name in ("lda_gibbs", "dmr"):
        f["vocabPrior"] = arr("vocabPrior", (T,))
    q["docLens"] = arr("docLens", (D,), "i4", lo=1)
    if name in ("lda_cvb0", "lda_cvb"):
        f["n_dk"] = q["n_dk"] = arr("n_dk", (D, K))
        f["n_kt"] = q["n_kt"] = arr("n_kt", (K, T))
        f["n_k"] = q["n_k"] = arr("n_k", (K,))
        if name == "lda_cvb":
            f["v_dk"] = q["v_dk"] = arr("v_dk", (D, K))
            f["v_kt"] = q["v_kt"] = arr("v_kt", (K, T))
            f["v_k"] = q["v_k"] = arr("v_k", (K,))
        q["W_list"] = q["z_dnk"] = None
    elif name in ("lda_vb", "lda_svb", "lda_vb_python", "mom_gibbs"):
        f["wordDists"] = arr("wordDists", (K, T))
        q["topicDists"] = arr("topicDists", (D, K), sumto=1 if normal and name == "mom_gibbs" else None)
        q["W_list"] = None
    elif name == "mom_em":
        f["wordDistParam"] = arr("wordDistParam", (K, T))
        f["corpusTopicDistParam"] = arr("corpusTopicDistParam", (K,))
        q["topicDists"] = arr("topicDists", (D, K), sumto=1 if normal else None)
    else:
        s = v.int("samples", 1, 50)
        f["numSamples"] = q["numSamples"] = s
        f["topicSum"] = q["topicSum"] = arr("topicSum", (D, K), sumto=s if normal else None)
        f["vocabSum"] = arr("vocabSum", (K, T), sumto=s if normal else None)
        q["w_list"] = q["z_list"] = None
        if name == "dmr":
            f["weights"] = arr("weights", (K, v.size("F")), lo=None)
            f["n_dk_samples"] = arr("n_dk_samples", (D, K, s), "u2")
    model = v.struct(m.ModelState, **{k: f[k] for k in m.ModelState._fields})
    query = v.struct(m.QueryState, **{k: q[k] for k in m.QueryState._fields})
    return model, query, A


def weights(A, name):
    """-> the (document/topic, topic/word) parameters the distributions are proportional to"""
    for a, b in (("n_dk", "n_kt"), ("topicDists", "wordDists"), ("topicSum", "vocabSum"), ("topicDists", "wordDistParam")):
        if a in A and b in A:
            return A[a], A[b]
