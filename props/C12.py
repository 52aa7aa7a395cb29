"""C12 querying and reading results leave the trained model unchanged"""
from spec import contract
from models import M, MODS, mod, state


def corpora(v, name, T, F=None):
    from sidetopics.model.common import DataSet
    D = v.size("D")
    W = v.csr("W%d" % len(v.inputs), (D, T), "f8" if name.lower().startswith("mom") else v.choice("words", ["i4", "f8"]), lo=1, hi=5, rowmin=1)
    W.data[...] = W.data.astype(int)
    X = None
    if name == "dmr":
        X = v.csr("X%d" % len(v.inputs), (D, F), "f8", lo=-1, hi=1)
    v.refresh()
    return DataSet(W, X) if X is not None else DataSet(W)


def arrays(what, x):
    import numpy as np
    r = []
    for f in x._fields:
        a = getattr(x, f)
        if isinstance(a, np.ndarray):
            r.append(("%s.%s" % (what, f), a, a.copy()))
    return r


def plan(m, name, v):
    if name in ("lda_gibbs", "dmr"):
        return m.newTrainPlan(v.int("iterations", 3, 8), burnIn=v.int("burn", 0, 2), thin=1)
    return m.newTrainPlan(iterations=v.int("iterations", 1, 5), logFrequency=1 if name == "lda_vb" else v.choice("log", [1, 2, 10]))


@contract("C12", targets=lambda n: [M + n + "." + f for f in ("query", "wordDists", "topicDists")], variants=MODS, mode="bounded")
def histories(v, name):
    """a trained model, then any sequence of queries and reads"""
    import numpy as np
    m = mod(name)
    T, K, F = v.size("T", 2), v.size("K", 2), v.size("F")
    if name == "lda_svb":
        model, _, _ = state(v, name, v.size("D0"), K, T)
    else:
        d0 = corpora(v, name, T, F)
        model = m.newModelAtRandom(d0, K, **({} if name != "lda_vb" else {"dtype": np.float64}))
        if name == "dmr":
            m.Sigma = 1.0
        model, q0, _ = m.train(d0, model, m.newQueryState(d0, model, False) if "mom" in name else m.newQueryState(d0, model), plan(m, name, v))
    if name in ("lda_gibbs", "dmr") and v.choice("some words have no mass in some topics", [0, 1]):
        model.vocabSum[...] *= (np.arange(T)[None, :] + np.arange(K)[:, None]) % T > 0
        model.vocabSum[...] *= model.numSamples / model.vocabSum.sum(axis=1, keepdims=True)
    kept = arrays("model", model)
    wd = m.wordDists(model).copy()
    if name != "lda_svb":
        kept += [("the training result", t, t.copy()) for t in [m.topicDists(q0)]]
    kept += [("the word distributions first read", t, t.copy()) for t in [m.wordDists(model)]]
    n, done = 0, ""
    for op in v.choice("history", ["q", "qq", "qrq", "rqrlqr", "lq", "qqr", "rr"]):
        done += op if "cvb" in name else ""          # their likelihood rescales the counts and restores them
        if op == "q":
            d = corpora(v, name, T, F)
            q = m.newQueryState(d, model, False) if "mom" in name else m.newQueryState(d, model)
            n += 1
            got, q = v.call(M + name + ".query", d, model, q, plan(m, name, v))
            v.ensure("the model a query returns has the same word distributions",
                     np.allclose(m.wordDists(got), wd, rtol=1e-5 if "l" in done else 1e-9, atol=1e-5 if "l" in done else 1e-12))
            kept += [("result of query %d" % n, t, t.copy()) for t in [m.topicDists(q)]]
            kept += arrays("state of query %d" % n, q)
        elif op == "r":
            v.call(M + name + ".wordDists", model)
            if n:
                v.call(M + name + ".topicDists", q)
        elif op == "l" and n:
            f = getattr(m, "log_likelihood_point", None) or m.log_likelihood
            f(d, model, q)
        for what, a, b in kept:
            v.ensure("unchanged: " + what.split(" of query")[0], np.array_equal(a, b) if "l" not in done else np.allclose(a, b, rtol=1e-5, atol=1e-5))
        if "l" in done:
            v.ensure("the word distributions stay the same", np.allclose(m.wordDists(model), wd, rtol=1e-5, atol=1e-5))
        else:
            v.same("the word distributions stay the same", m.wordDists(model), wd)


KINDS = ["LDA_CVB0", "LDA_CVB", "LDA_VB", "LDA_VB_PYTHON_IMPL", "LDA_GIBBS", "MOM_VB", "MOM_GIBBS"]
W = "sidetopics.model.sklearn.lda_cvb.TopicModel."


@contract("C12", targets=[W + "transform", W + "components_", W + "score"], variants=KINDS, mode="bounded")
def wrapper(v, kind):
    """fit, then any sequence of transforms (resumed or not), scores and reads"""
    import numpy as np
    from sidetopics.model.sklearn.lda_cvb import TopicModel
    T, K = v.size("T", 2), v.size("K", 2)
    d0 = corpora(v, kind, T)
    tm = TopicModel(kind, n_components=K, iterations=v.int("iterations", 10, 14), query_iterations=v.int("query iterations", 5, 9),
                    log_frequency=5, burn_in=1, thin=1, seed=v.int("seed", 0, 1000))
    tm.fit(d0, persist_query_state=v.choice("persist", [True, False]))
    wd = tm.components_.copy()
    kept = arrays("model", tm._model_state)
    last = None
    for op in v.choice("history", ["t", "tt", "trt", "ptst", "pR", "pRR", "tpR", "rpRs"]):
        if op in "tpR":
            d = last if op == "R" else corpora(v, kind, T)
            r = v.call(tm.transform, d, persist_query_state=op in "pR", resume=op == "R")
            kept.append(("the result of an earlier transform", r, r.copy()))
            last = d
        elif op == "r":
            c = tm.components_
            kept.append(("components read earlier", c, c.copy()))
        elif op == "s" and last is not None:
            tm.score(last, y=r)
        for what, a, b in kept:
            v.ensure("unchanged: " + what, np.array_equal(a, b))
        v.same("the components stay the same", tm.components_, wd)
