"""C10 Gibbs samplers keep counts consistent with assignments"""
from spec import contract
from links import Linked, Now

M = "sidetopics.model."
G, DM = M + "lda_gibbs_fast.", M + "dmr_fast."


def corpus(v, K, empty=True, most=None):
    """document lengths, tokens and assignments"""
    D, T = v.size("D"), v.size("T")
    if v.sym:
        lens, N, start, row = v.rows("docLens", D, most)
        w = v.arr("w", (N,), "u2", lo=0, hi=T)
        z = v.arr("z", (N,), "u1", lo=0, hi=K)
        return D, T, N, lens, w, z, row
    import numpy as np
    lens = v.arr("docLens", (D,), "i4", lo=0 if empty else 1, hi=6)
    N = int(lens.sum())
    w = v.arr("w", (N,), "u2", lo=0, hi=T)
    z = v.arr("z", (N,), "u1", lo=0, hi=K)
    off = np.concatenate(([0], np.cumsum(lens))).astype(int)
    return D, T, N, lens, w, z, off


def topics(v):
    K = v.size("K", 2)
    if v.sym:
        v.assume(K <= 256)      # topics are stored in bytes
        return K
    if v.rng.random() < .03:
        K = 255
    return K


def count(v, z, w, off, D, K, T):
    import numpy as np
    ndk, nkv = np.zeros((D, K), int), np.zeros((K, T), int)
    for d in range(D):
        for n in range(off[d], off[d + 1]):
            ndk[d, z[n]] += 1
            nkv[z[n], w[n]] += 1
    return ndk, nkv


def zeros(v, name, shape, dtype):
    return v.given(name, shape, dtype, lambda *i: 0) if v.sym else v.arr(name, shape, dtype, gen=lambda g, *i: 0)


def meaning(v, z, w, row, N, skip=None):
    """what the three counts stand for, over every token but the one to skip"""
    o = (lambda n: 1) if skip is None else (lambda n: 1 - v.ind(v.eq(n, skip)))
    return (lambda d, k: v.sum(N, lambda n: v.ind(v.eq(row(n), d)) * v.ind(v.eq(z[n], k)) * o(n)),
            lambda k, t: v.sum(N, lambda n: v.ind(v.eq(z[n], k)) * v.ind(v.eq(w[n], t)) * o(n)),
            lambda k: v.sum(N, lambda n: v.ind(v.eq(z[n], k)) * o(n)))


def own(v, z, w, row, n):
    """what one token contributes"""
    return (lambda d, k: v.ind(v.eq(row(n), d)) * v.ind(v.eq(z[n], k)),
            lambda k, t: v.ind(v.eq(z[n], k)) * v.ind(v.eq(w[n], t)),
            lambda k: v.ind(v.eq(z[n], k)))


def consistent(v, when, z, w, off, D, K, T, ndk, nkv, nk, nkv0=None, nk0=None):
    if v.sym:
        N = z.shape[0]
        a, b, c = meaning(v, z, w, off, N)
        v.forall(when + ": every assignment is a topic", [N], lambda n: v.And(0 <= z[n], z[n] < K))
        v.forall(when + ": document/topic counts are the numbers of tokens so assigned", [D, K], lambda d, k: v.eq(ndk[d, k], a(d, k)))
        v.forall(when + ": topic/word counts are the numbers of tokens so assigned", [K, T], lambda k, t: v.eq(nkv[k, t], b(k, t) + (nkv0[k, t] if nkv0 is not None else 0)))
        v.forall(when + ": topic counts are the numbers of tokens so assigned", [K], lambda k: v.eq(nk[k], c(k) + (nk0[k] if nk0 is not None else 0)))
        return
    import numpy as np
    v.ensure(when + ": every assignment is a topic", bool(np.all(z < K)))
    a, b = count(v, z, w, off, D, K, T)
    v.ensure(when + ": document/topic counts are the numbers of tokens so assigned", np.array_equal(ndk, a))
    v.ensure(when + ": topic/word counts are the numbers of tokens so assigned", np.array_equal(nkv, b + (0 if nkv0 is None else nkv0)))
    v.ensure(when + ": topic counts are the numbers of tokens so assigned", np.array_equal(nk, b.sum(axis=1) + (0 if nk0 is None else nk0)))


@contract("C10", targets=lambda m: [M + m + ".sumSuffStats"], variants=["lda_gibbs_fast", "dmr_fast"])
def suff_stats(v, m):
    K = topics(v)
    D, T, N, lens, w, z, off = corpus(v, K, most=65535 if "dmr" in m else None)
    ndk = zeros(v, "ndk", (D, K), "i4" if "gibbs" in m else "u2")
    nkv = zeros(v, "nkv", (K, T), "i4")
    nk = zeros(v, "nk", (K,), "i4")
    v.call(M + m + ".sumSuffStats", w, z, lens, ndk, nkv, nk, modifies=[ndk, nkv, nk])
    consistent(v, "initialisation", z, w, off, D, K, T, ndk, nkv, nk)


@contract("C10", targets=lambda k: [M + k[0] + ".sample"], variants=[(m, q) for m in ("lda_gibbs_fast", "dmr_fast") for q in ("train", "query")])
def sample(v, k):
    import numpy as np
    m, q = k
    dmr = "dmr" in m
    K = topics(v)
    D, T, N, lens, w, z, off = corpus(v, K, most=65535 if dmr else None)
    cnt, thin = (v.size("count", 0), v.size("thin")) if v.sym else (v.int("count", 0, 6), v.int("thin", 1, 5))
    if v.sym:
        return sample_proof(v, m, q, dmr, K, D, T, N, lens, w, z, off, cnt, thin)
    base = v.arr("model counts", (K, T), "i4", lo=1, hi=9) if q == "query" else np.zeros((K, T), np.int32)
    c0, c1 = count(v, z, w, off, D, K, T)
    ndk = v.guarded(c0.astype(np.uint16 if dmr else np.int32))
    nkv = v.guarded((c1 + base).astype(np.int32))
    nk = v.guarded((c1 + base).sum(axis=1).astype(np.int32))
    for n_, a_ in (("ndk", ndk), ("nkv", nkv), ("nk", nk)):
        v.track(n_, a_)
    nkv0, nk0 = nkv.copy(), nk.copy()
    a = v.arr("topic prior", (D, K) if dmr else (K,), "f8", lo=0)
    b = v.arr("vocab prior", (T,), "f8", lo=0)
    ts = v.arr("topicSum", (D, K), "f8", lo=0)
    vs = v.arr("vocabSum", (K, T), "f8", lo=0)
    ts0, vs0 = ts.copy(), vs.copy()
    v.stream()
    want = cnt // thin
    mod = [z, ndk, nkv, nk, ts, vs]
    if dmr:
        ns = v.guarded(np.full((D, K, want), 65000, np.uint16))
        v.track("n_dk_samples", ns)
        mod.append(ns)
        got = v.call(M + m + ".sample", cnt, thin, w, z, lens, a, ndk, nkv, nk, ns, ts, vs, b, q == "query", False, modifies=mod)
    else:
        got = v.call(M + m + ".sample", cnt, thin, w, z, lens, ndk, nkv, nk, ts, vs, a, b, q == "query", False, modifies=mod)
    v.ensure("one sample per thin-th sweep", got == want)
    if q == "train":
        consistent(v, "after sampling", z, w, off, D, K, T, ndk, nkv, nk)
    else:
        v.ensure("querying leaves the topic/word counts as they were", np.array_equal(nkv, nkv0) and np.array_equal(nk, nk0) and np.array_equal(vs, vs0))
        c0, c1 = count(v, z, w, off, D, K, T)
        v.ensure("every assignment is a topic", bool(np.all(z < K)))
        v.ensure("document/topic counts are the numbers of tokens so assigned", np.array_equal(ndk, c0))
    A = a if dmr else np.broadcast_to(a, (D, K))
    v.forall("each accumulated topic sample is a distribution", [D], lambda d: v.eq((ts[d] - ts0[d]).sum(), want))
    v.forall("no topic sample is negative", [D, K], lambda d, k: v.le(ts0[d, k], ts[d, k]))
    if q == "train":
        v.forall("each accumulated word sample is a distribution", [K], lambda k: v.eq((vs[k] - vs0[k]).sum(), want))
        v.forall("no word sample is negative", [K, T], lambda k, t: v.le(vs0[k, t], vs[k, t]))
    if cnt and cnt == thin:
        v.forall("the sample of the last sweep", [D, K], lambda d, k: v.eq(ts[d, k] - ts0[d, k], (ndk[d, k] + A[d, k]) / (lens[d] + A[d].sum())))
        if q == "train":
            v.forall("the word sample of the last sweep", [K, T], lambda k, t: v.eq(vs[k, t] - vs0[k, t], (nkv[k, t] + b[t]) / (nk[k] + b.sum())))
    if dmr:
        for s in range(want):
            v.ensure("each stored sample holds every token once", np.array_equal(ns[:, :, s].astype(int).sum(axis=1), lens))
        if cnt and cnt == want * thin:
            v.ensure("the last stored sample is the current state", np.array_equal(ns[:, :, want - 1], ndk))


def sample_proof(v, m, q, dmr, K, D, T, N, lens, w, z, row, cnt, thin):
    a0, b0, c0 = meaning(v, z, w, row, N)
    ndk = v.given("ndk", (D, K), "u2" if dmr else "i4", a0)
    if q == "train":
        base = base1 = None
        nkv, nk = v.given("nkv", (K, T), "i4", b0), v.given("nk", (K,), "i4", c0)
    else:
        nkv, nk = v.arr("nkv", (K, T), "i4", lo=0), v.arr("nk", (K,), "i4", lo=0)
    a = v.arr("topic prior", (D, K) if dmr else (K,), "f8", lo=0)
    b = v.arr("vocab prior", (T,), "f8", lo=0)
    ts, vs = v.arr("topicSum", (D, K), "f8", lo=0), v.arr("vocabSum", (K, T), "f8", lo=0)
    Z = Now(z)
    now = lambda i: lambda skip: meaning(v, Z, w, row, N, skip)[i]
    one = lambda i: lambda n: own(v, Z, w, row, n)[i]
    most = (lambda n: lambda d, k: lens[d] - v.ind(v.eq(row(n), d)), lambda n: lambda d, k: v.ind(v.eq(row(n), d)))
    names = ["document/topic counts are the numbers of tokens so assigned", "topic/word counts are the numbers of tokens so assigned",
             "topic counts are the numbers of tokens so assigned"]
    arrs = [ndk, nkv, nk] if q == "train" else [ndk]
    v.new_scratch()
    v.invariant("*", Linked(v, [(z, lambda i, x: [0 <= x, x < K], [])], [(names[i], x, now(i), one(i), True) + ((most,) if i == 0 and dmr else ())
                                                                           for i, x in enumerate(arrs)], spot=z))
    mod = arrs + [z, ts] + ([vs] if q == "train" else [])
    want = v.fdiv(cnt, thin)
    if dmr:
        ns = v.arr("n_dk_samples", (D, K, want), "u2", lo=0)
        got = v.call(M + m + ".sample", cnt, thin, w, z, lens, a, ndk, nkv, nk, ns, ts, vs, b, q == "query", False, modifies=mod + [ns])
    else:
        got = v.call(M + m + ".sample", cnt, thin, w, z, lens, ndk, nkv, nk, ts, vs, a, b, q == "query", False, modifies=mod)
    v.ensure("one sample per thin-th sweep", v.eq(got, want))
    a1, b1, c1 = meaning(v, z, w, row, N)
    v.forall("every assignment is a topic", [N], lambda n: v.And(0 <= z[n], z[n] < K))
    for nm, sh, x, y in zip(names, [(D, K), (K, T), (K,)], arrs, (a1, b1, c1)):
        v.forall(nm, list(sh), lambda *i: v.eq(x[i if len(i) > 1 else i[0]], y(*i)))


def dataset(v, D, T, feats=False, dt=None, empty=False):
    import numpy as np
    W = v.csr("W", (D, T), dt or "i4", lo=1, hi=4, rowmin=0 if empty else 1)
    X = None
    if feats:
        F = v.size("F")
        X = v.csr("X", (D, F), "f8")
    from sidetopics.model.common import DataSet
    return DataSet(W, X) if X is not None else DataSet(W)


@contract("C10", targets=lambda m: [M + m + ".train", M + m + ".query", M + m + ".newQueryState", M + m + ".newTrainPlan", M + m + ".topicDists", M + m + ".wordDists"],
          variants=["lda_gibbs", "dmr"], mode="bounded")
def run(v, m):
    import importlib
    import numpy as np
    mod = importlib.import_module(M + m)
    dmr = m == "dmr"
    K, D, T = v.size("K", 2), v.size("D"), v.size("T", 2)
    d = dataset(v, D, T, dmr, empty=v.rng.random() < .3)
    W = np.asarray(d.words.todense()).astype(int)
    model = mod.newModelAtRandom(d, K, dtype=np.float64)
    q0 = v.call(M + m + ".newQueryState", d, model)
    v.ensure("every initial assignment is a topic", bool(np.all(q0.z_list < K)) and len(q0.z_list) == W.sum())
    thin = v.int("thin", 1, 4)
    burn = v.int("burn", 0, 4)
    it = v.int("iterations", thin, thin * 4 + 3)
    kw = {"weightUpdateInterval": thin * v.int("segments", 1, 4)} if dmr else {}
    if dmr:
        plan = mod.newTrainPlan(burn + it, burnIn=burn, thin=thin, **kw)
        v.ensure("the plan is the one asked for", plan.iterations == burn + it and plan.burnIn == burn and plan.thin == thin)
        mod.updateWeights.__globals__["Sigma"] = 1.0
    else:
        plan = mod.newTrainPlan(it, burnIn=burn, thin=thin)
        v.ensure("the plan is the one asked for", plan.iterations - plan.burnIn == it and plan.burnIn == burn and plan.thin == thin)
    v.stream()
    model, q, _ = v.call(M + m + ".train", d, model, q0, plan)
    v.ensure("the reported number of samples is the number taken", model.numSamples == it // thin and q.numSamples == it // thin)
    td, wd = mod.topicDists(q), mod.wordDists(model)
    v.forall("topic distributions sum to one", [D], lambda i: v.eq(td[i].sum(), 1))
    v.forall("word distributions sum to one", [K], lambda i: v.eq(wd[i].sum(), 1))
    v.ensure("no probability is negative", bool(np.all(td >= 0) and np.all(wd >= 0)))
    v.ensure("every assignment is a topic", bool(np.all(q.z_list < K)))
    if dmr:
        ns = model.n_dk_samples
        v.has_shape("one slot per sample", ns, (D, K, it // thin))
        for s in range(it // thin):
            v.ensure("each stored sample holds every token once", np.array_equal(ns[:, :, s].astype(int).sum(axis=1), W.sum(axis=1)))
        A = np.exp(d.feats.dot(model.weights.T))
        v.ensure("the prior is finite", bool(np.all(np.isfinite(A))))
    before = [np.array(x, copy=True) for x in model if isinstance(x, np.ndarray)]
    q1 = v.call(M + m + ".newQueryState", d, model)
    v.stream()
    model2, q2 = v.call(M + m + ".query", d, model, q1, plan)
    after = [x for x in model if isinstance(x, np.ndarray)]
    v.ensure("querying leaves the model as it was", all(np.array_equal(x, y) for x, y in zip(before, after)))
    v.ensure("the model a query returns is the one it was given", np.array_equal(mod.wordDists(model2), wd) and model2.numSamples == model.numSamples)
    v.ensure("the reported number of query samples is the number taken", q2.numSamples == it // thin)
    td = mod.topicDists(q2)
    v.forall("queried topic distributions sum to one", [D], lambda i: v.eq(td[i].sum(), 1))
