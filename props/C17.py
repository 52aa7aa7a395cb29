"""C17 variational LDA updates conserve mass and invert cleanly"""
from spec import contract
from models import M, state
from C14 import words
from callees import use_some_number

VP, VB, VF = M + "lda_vb_python.", M + "lda_vb.", M + "lda_vb_fast."


@contract("C17", targets=[VP + "_convertMeansToDirichletParam", VP + "_convertDirichletParamToMeans"], variants=[(o, d) for o in ("means", "param") for d in ("i4", "f8")])
def conversions(v, k):
    order, dt = k
    D, K = v.size("D"), v.size("K", 1)
    n, p, m = v.arr("docLens", (D,), dt, lo=1), v.arr("topicPrior", (K,), "f8", lo=0), v.arr("means", (D, K), "f8")
    old = v.old(m)
    to, fro = VP + "_convertMeansToDirichletParam", VP + "_convertDirichletParamToMeans"
    if order == "param":
        to, fro = fro, to
    a = v.call(to, n, m, p, modifies=[m])
    v.forall("converted", [D, K], lambda d, k: v.eq(a[d, k], old[d, k] * n[d] + p[k]) if order == "means" else v.eq(a[d, k] * n[d], old[d, k] - p[k]))
    b = v.call(fro, n, a, p, modifies=[a])
    v.has_shape("shape", b, (D, K))
    v.forall("back again", [D, K], lambda d, k: v.eq(b[d, k], old[d, k]))


def plan_for(v, iterations, rate="batch", size=0, **kw):
    import sidetopics.model.lda_vb_python as m
    f = dict(iterations=iterations, epsilon=2, logFrequency=0, fastButInaccurate=False, debug=False, batchSize=size, rate_delay=0.6, forgetting_rate=0.6, rate_a=2, rate_b=0.5, rate_algor=rate)
    f.update(kw)
    return v.struct(m.TrainPlan, **f)


def lengths(v, data, model, w, D, T):
    """document lengths as query states have them"""
    n = v.get(v.call(VP + "newQueryState", data, model, False), "docLens")
    v.has_shape("one length per document", n, (D,))
    v.forall("documents are as long as they have words", [D], lambda d: v.eq(n[d], v.sum(T, lambda t: w[d, t])))
    return n


@contract("C17", targets=[VP + "_update_topics_at_d"])
def update_at(v):
    D, K, T = v.size("D"), v.size("K", 2), v.size("T")
    data, w = words(v, D, T, "f8")
    d = v.int("d", 0, D - 1)
    model, q, A = state(v, "lda_vb_python", D, K, T)
    n, p = lengths(v, data, model, w, D, T), A["topicPrior"]
    v.assume(n[d] >= 1)
    m = v.arr("means", (D, K), "f8", lo=0, strict=False)
    di, ds = v.arr("diWordDists", (K, T), "f8"), v.arr("diWordDistSums", (K,), "f8")
    old = v.old(m)
    idx, z = v.call(VP + "_update_topics_at_d", d, data, n, m, p, di, ds, modifies=[m])
    v.forall("not negative", [K], lambda k: v.nonneg(m[d, k]))
    v.ensure("the topics of the document sum to its length and the prior mass", v.eq(v.sum(K, lambda k: p[k] + n[d] * m[d, k]), n[d] + v.sum(K, lambda k: p[k])))
    v.forall("other documents are left alone", [D, K], lambda j, k: v.ite(v.eq(j, d), lambda: 0 == 0, lambda: v.eq(m[j, k], old[j, k])))


def no_mass_lost(v, n, r, p, D, K):
    v.has_shape("shape", r, (D, K))
    v.forall("parameters exceed the prior", [D, K], lambda d, k: v.nonneg(r[d, k] - p[k]))
    v.forall("the topics of every document sum to its length and the prior mass", [D], lambda d: v.eq(v.sum(K, lambda k: r[d, k]), n[d] + v.sum(K, lambda k: p[k])))


@contract("C17", targets=[VP + "train", VP + "query"], variants=["train", "query"])
def batch_pass(v, how):
    """a pass from an arbitrary state (any pass starts from some state)"""
    import sidetopics.model.lda_vb_python as m
    D, K, T = v.size("D"), v.size("K", 2), v.size("T")
    data, w = words(v, D, T, "f8", canonical=True, rowmin=1)
    model, q, A = state(v, "lda_vb_python", D, K, T)
    n, p = lengths(v, data, model, w, D, T), A["topicPrior"]
    q = v.struct(m.QueryState, docLens=n, topicDists=A["topicDists"], processed=True)
    old = v.old(A["wordDists"])
    f, mods = (m.train, [A["topicDists"], A["wordDists"]]) if how == "train" else (m.query, [A["topicDists"]])
    r = v.call(f, data, model, q, plan_for(v, 1), modifies=mods, allow={"ValueError"})
    if r is None:
        return
    new, got = r[0], r[1]
    no_mass_lost(v, n, v.get(got, "topicDists"), p, D, K)
    wd = v.get(new, "wordDists")
    v.has_shape("shape", wd, (K, T))
    if how == "query":
        v.forall("a query leaves the words alone", [K, T], lambda k, t: v.eq(wd[k, t], old[k, t]))
        return
    vp = v.get(model, "vocabPrior")
    v.forall("parameters exceed the prior", [K, T], lambda k, t: v.nonneg(wd[k, t] - vp))
    v.ensure("the words sum to the tokens of the corpus and the prior mass", v.eq(v.sum(K, lambda k: v.sum(T, lambda t: wd[k, t])), K * T * vp + v.sum(D, lambda d: v.sum(T, lambda t: w[d, t]))))
    v.forall("every word's total is its tokens and the prior mass", [T], lambda t: v.eq(v.sum(K, lambda k: wd[k, t]), K * vp + v.sum(D, lambda d: w[d, t])))


@contract("C17", targets=[VP + "update_inplace_v"])
def partial_update(v):
    """with a rate in [0, 1] the parameters stay between their old values and the batch's"""
    K, T = v.size("K", 1), v.size("T")
    s = v.arr("rate", (K,), "f8", lo=0, hi=1, strict=False)
    o, c = v.arr("old", (K, T), "f8"), v.arr("batch", (K, T), "f8")
    o0, c0 = v.old(o), v.old(c)
    v.call(VP + "update_inplace_v", s, o, c, modifies=[o, c])
    v.forall("weighted mean of the old values and the batch's", [K, T], lambda k, t: v.eq(o[k, t], o0[k, t] + s[k] * (c0[k, t] - o0[k, t])))


def copies(v, data, model, q):
    import sidetopics.model.lda_vb_python as m
    return (m.ModelState(model.K, model.topicPrior.copy(), model.vocabPrior, model.wordDists.copy(), True, model.dtype, model.name),
            m.QueryState(q.docLens, q.topicDists.copy(), True))


@contract("C17", targets=[VP + "train"], variants=["kappa", "variance", "amari"], mode="bounded")
def learning_rates(v, how):
    """the rate of update n, deduced from the words before and after it and from the batch it was made of.
    A batch is m passes over the corpus, so that the words are updated once per iteration"""
    import numpy as np
    import sidetopics.model.lda_vb_python as m
    D, K, T = v.size("D"), v.size("K", 2), v.size("T")
    data, w = words(v, D, T, "f8", canonical=True, rowmin=1)
    model, q, A = state(v, "lda_vb_python", D, K, T)
    n, p = lengths(v, data, model, w, D, T), A["topicPrior"]
    q = v.struct(m.QueryState, docLens=n, topicDists=A["topicDists"], processed=True)
    rounds, rep = v.int("n", 0, 6), v.int("passes", 2, 3)
    algor = {"kappa": m.RateAlgorTimeKappa, "variance": m.RateAlgorVariance, "amari": m.RateAlgorAmaria}[how]
    delay, forget = v.real("delay", 0), v.real("forgetting", 0)
    plan = lambda its, al=algor: plan_for(v, its, al, rep * D, rate_delay=delay, forgetting_rate=forget)

    def after(its):
        mm, qq = copies(v, data, model, q)
        r = m.train(data, mm, qq, plan(its))
        return r[0], r[1]

    m0, q0 = after(rounds)
    m1, q1 = after(rounds + 1)
    batch = np.full((K, T), m0.vocabPrior, dtype=np.float64)
    qq = q0
    for i in range(rep):
        mm, qq = copies(v, data, m0, qq)
        r = m.train(data, mm, qq, plan_for(v, 1))
        batch += r[0].wordDists - m0.vocabPrior
        qq = r[1]
    v.ensure("topics as the passes leave them", np.allclose(qq.topicDists, q1.topicDists, rtol=1e-6, atol=1e-9))
    no_mass_lost(v, n, q1.topicDists, p, D, K)
    for k in range(K):
        step, gap = m1.wordDists[k] - m0.wordDists[k], batch[k] - m0.wordDists[k]
        i = np.argmax(np.abs(gap))
        if abs(gap[i]) < 1e-6 * (abs(batch[k, i]) + 1):
            continue
        rate = step[i] / gap[i]
        v.ensure("the learning rate lies between zero and one", 0 <= rate <= 1 + 1e-7)
        v.ensure("all words of a topic move at that rate", np.allclose(step, rate * gap, rtol=1e-6, atol=1e-7 * (1 + np.abs(batch[k]).max())))


def jagged(v, D, T):
    """words as the compiled kernels take them: documents as rows of a matrix, filled to their length"""
    N = v.size("N")
    wl = v.arr("W_list", (D, N), "i4", lo=0, hi=T - 1)
    n = v.arr("lengths", (D,), "i4", lo=0, hi=N)
    return N, wl, n


def compiled_args(v, dt):
    D, K, T = v.size("D"), v.size("K", 1), v.size("T", 1)
    N, wl, n = jagged(v, D, T)
    p, vp = v.arr("topicPrior", (K,), dt, lo=0), v.arr("vocabPrior", (1,), dt, lo=0)[0]
    z, td, wd = v.arr("z", (N, K), dt), v.arr("topicDists", (D, K), dt, lo=0), v.arr("wordDists", (K, T), dt, lo=0)
    if dt == "f4":
        v.tol = 2e-3
    return D, K, T, wl, n, p, vp, z, td, wd


def compiled_topics(v, D, K, n, p, td):
    v.forall("parameters exceed the prior", [D, K], lambda d, k: v.nonneg(td[d, k] - p[k]))
    v.forall("the topics of every document sum to its length and the prior mass", [D], lambda d: v.eq(v.sum(K, lambda k: td[d, k]), n[d] + v.sum(K, lambda k: p[k])))


@contract("C17", targets=lambda dt: [VF + "query_f%s" % dt], variants=["64", "32"])
def compiled_query(v, dt):
    D, K, T, wl, n, p, vp, z, td, wd = compiled_args(v, "f%d" % (int(dt) // 8))
    v.call(VF + "query_f" + dt, D, T, K, wl, n, p, z, td, wd, modifies=[z, td])
    compiled_topics(v, D, K, n, p, td)


@contract("C17", targets=lambda dt: [VF + "iterate_f%s" % dt], variants=["64", "32"])
def compiled_pass(v, dt):
    D, K, T, wl, n, p, vp, z, td, wd = compiled_args(v, "f%d" % (int(dt) // 8))
    v.call(VF + "iterate_f" + dt, 1, D, K, T, wl, n, p, vp, z, td, wd, modifies=[z, td, wd])
    compiled_topics(v, D, K, n, p, td)
    v.forall("parameters exceed the prior", [K, T], lambda k, t: v.nonneg(wd[k, t] - vp))
    v.forall("every word's total is its tokens and the prior mass", [T], lambda t: v.eq(v.sum(K, lambda k: wd[k, t]), K * vp + v.sum(D, lambda d: v.sum(n[d], lambda i: v.ind(v.eq(wl[d, i], t))))))
    v.ensure("the words sum to the tokens of the corpus and the prior mass", v.eq(v.sum(K, lambda k: v.sum(T, lambda t: wd[k, t])), K * T * vp + v.sum(D, lambda d: n[d])))


@contract("C17", targets=lambda k: [VB + k[0]], variants=[(f, dt) for f in ("query", "train") for dt in ("f8", "f4")])
def vb(v, k):
    """the compiled updates as the model calls them"""
    import numpy as np
    import sidetopics.model.lda_vb as m
    what, dt = k
    D, K, T, wl, n, p, vp, z, td, wd = compiled_args(v, dt)
    data, w = words(v, D, T, "f8")
    model = v.struct(m.ModelState, K=K, topicPrior=p, vocabPrior=vp, wordDists=wd, dtype=np.float32 if dt == "f4" else np.float64, name="lda/vb")
    q = v.struct(m.QueryState, W_list=wl, docLens=n, topicDists=td)
    plan = v.struct(m.TrainPlan, iterations=1, epsilon=2, logFrequency=0, fastButInaccurate=False, debug=False)
    use_some_number(v, VB + "var_bound", VB + "log_likelihood")
    r = v.call(VB + what, data, model, q, plan, modifies=[td] + ([wd] if what == "train" else []), allow={"ValueError"})
    if r is None:
        return
    compiled_topics(v, D, K, n, p, v.get(r[1], "topicDists"))
    if what == "train":
        wd = v.get(r[0], "wordDists")
        v.forall("every word's total is its tokens and the prior mass", [T], lambda t: v.eq(v.sum(K, lambda k: wd[k, t]), K * vp + v.sum(D, lambda d: v.sum(n[d], lambda i: v.ind(v.eq(wl[d, i], t))))))
