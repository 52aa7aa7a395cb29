"""C19 mixture-of-multinomials steps are true posteriors"""
from spec import contract
from models import M, state
from C14 import words
from callees import slog, use_safe_log

EM, GS = M + "mom_em.", M + "mom_gibbs."


def softmax(v, e, K):
    """proportional to the exponentials"""
    return lambda d, k: v.softmax(K, lambda j: e(d, j))(k)


def expected(v, beta, alpha, w, K, T):
    """expected log weight of the topic plus expected log-probability of the document's words under it, for Dirichlet parameters"""
    return lambda d, k: v.psi(alpha(k)) - v.psi(v.sum(K, alpha)) + v.sum(T, lambda t: w[d, t] * (v.psi(beta(k, t)) - v.psi(v.sum(T, lambda u: beta(k, u)))))


@contract("C19", targets=[EM + "query"])
def em_query(v):
    import sidetopics.model.mom_em as m
    D, K, T = v.size("D"), v.size("K", 2), v.size("T")
    data, w = words(v, D, T, "f8")
    model, q, A = state(v, "mom_em", D, K, T, "f8", normal=True)
    plan = v.struct(m.TrainPlan, iterations=1, epsilon=2, logFrequency=0, fastButInaccurate=False, debug=False)
    _, got = v.call(m.query, data, model, q, plan)
    b, a = A["wordDistParam"], A["corpusTopicDistParam"]
    r = v.get(got, "topicDists")
    resp = softmax(v, expected(v, lambda k, t: b[k, t], lambda k: a[k], w, K, T), K)
    v.forall("proportional to topic weight times likelihood", [D, K], lambda d, k: v.eq(r[d, k], resp(d, k)))
    v.forall("not negative", [D, K], lambda d, k: v.nonneg(r[d, k]))
    v.forall("sum to one", [D], lambda d: v.eq(v.sum(K, lambda k: r[d, k]), 1))


def checked_pass(v, w, K, D, T, topicPrior, vocabPrior, beta0, alpha0, r, wp, cp, moved):
    """responsibilities r from the parameters beta0, alpha0; new parameters wp, cp"""
    resp = softmax(v, expected(v, beta0, alpha0, w, K, T), K)
    v.forall("responsibilities proportional to topic weight times likelihood", [D, K], lambda d, k: v.eq(r[d, k], resp(d, k)))
    v.forall("responsibilities not negative", [D, K], lambda d, k: v.nonneg(r[d, k]))
    v.forall("responsibilities sum to one", [D], lambda d: v.eq(v.sum(K, lambda k: r[d, k]), 1))
    if moved:
        v.forall("topic parameters are the prior plus the responsibilities", [K],
                 lambda k: v.eq(cp[k], topicPrior[k] + v.sum(D, lambda d: r[d, k])))
        v.forall("word parameters are the prior plus the responsibility-weighted counts", [K, T],
                 lambda k, t: v.eq(wp[k, t], vocabPrior[t] + v.sum(D, lambda d: r[d, k] * w[d, t])))


@contract("C19", targets=[EM + "train"])
def em_train(v):
    """one pass from an arbitrary state (any pass starts from some state); a pass that changes little keeps the parameters it started with"""
    import sidetopics.model.mom_em as m
    D, K, T = v.size("D"), v.size("K", 2), v.size("T")
    data, w = words(v, D, T, "f8")
    model, q, A = state(v, "mom_em", D, K, T, "f8", normal=True)
    vp = v.arr("vocabPriors", (T,), "f8", lo=0)
    model = model._replace(vocabPrior=vp)
    plan = v.struct(m.TrainPlan, iterations=1, epsilon=2, logFrequency=0, fastButInaccurate=False, debug=False)
    b, a = A["wordDistParam"], A["corpusTopicDistParam"]
    new, got, _ = v.call(m.train, data, model, q, plan)
    wp, cp, r = v.get(new, "wordDistParam"), v.get(new, "corpusTopicDistParam"), v.get(got, "topicDists")
    B, Al = (lambda k, t: b[k, t]), (lambda k: a[k])
    checked_pass(v, w, K, D, T, A["topicPrior"], vp, B, Al, r, wp, cp, not (wp is b or cp is a))


def table(v, f, *shape):
    """trials: evaluate once"""
    if v.sym:
        return f
    import numpy as np
    a = np.array([f(*i) for i in np.ndindex(*[int(n) for n in shape])], float).reshape([int(n) for n in shape])
    return lambda *i: float(a[i])


@contract("C19", targets=[EM + "train"])
def em_passes(v):
    """every pass continues from the parameters the pass before ended with; a pass that changes little is the last and keeps them"""
    em_chain(v, 2)


@contract("C19", targets=[EM + "train"], mode="bounded", variants=[3, 5, 8])
def em_many_passes(v, n):
    em_chain(v, n)


def em_chain(v, n):
    import sidetopics.model.mom_em as m
    D, K, T = v.size("D"), v.size("K", 2), v.size("T")
    data, w = words(v, D, T, "f8")
    model, q, A = state(v, "mom_em", D, K, T, "f8", normal=True)
    vp, tp = v.arr("vocabPriors", (T,), "f8", lo=0), A["topicPrior"]
    model = model._replace(vocabPrior=vp)
    plan = v.struct(m.TrainPlan, iterations=n, epsilon=2, logFrequency=0, fastButInaccurate=False, debug=False)
    b, a, r0 = A["wordDistParam"], A["corpusTopicDistParam"], A["topicDists"]
    new, got, _ = v.call(m.train, data, model, q, plan)
    wp, cp, r = v.get(new, "wordDistParam"), v.get(new, "corpusTopicDistParam"), v.get(got, "topicDists")

    B, Al, R = (lambda k, t: b[k, t]), (lambda k: a[k]), (lambda d, k: r0[d, k])
    ends, gaps = [], []
    for i in range(n):
        R1 = table(v, softmax(v, expected(v, B, Al, w, K, T), K), D, K)
        gaps.append(lambda R=R, R1=R1: v.sum(D, lambda d: v.sum(K, lambda k: v.abs(R(d, k) - R1(d, k)))) < m.CHANGE_TOLERANCE * D * K)
        ends.append((R1, Al, B))
        B = table(v, lambda k, t, R1=R1: vp[t] + v.sum(D, lambda d: R1(d, k) * w[d, t]), K, T)
        Al = table(v, lambda k, R1=R1: tp[k] + v.sum(D, lambda d: R1(d, k)), K)
        R = R1
    ends.append((R, Al, B))
    if v.sym:
        def pick(f):
            def at(i):
                return f(ends[i]) if i == n else v.ite(gaps[i](), lambda: f(ends[i]), lambda: at(i + 1))
            return at(0)
    else:                       # whichever pass was the last
        def agree(e):
            return all(v.eq(r[d, k], e[0](d, k)) for d in range(D) for k in range(K)) and all(v.eq(cp[k], e[1](k)) for k in range(K)) \
                and all(v.eq(wp[k, t], e[2](k, t)) for k in range(K) for t in range(T))
        end = next((e for e in ends if agree(e)), ends[-1])

        def pick(f):
            return f(end)
    v.forall("responsibilities", [D, K], lambda d, k: v.eq(r[d, k], pick(lambda e: e[0](d, k))))
    v.forall("topic parameters", [K], lambda k: v.eq(cp[k], pick(lambda e: e[1](k))))
    v.forall("word parameters", [K, T], lambda k, t: v.eq(wp[k, t], pick(lambda e: e[2](k, t))))


def sampled(v, w, old, al, phi, r, D, K, T):
    """r: the memberships drawn in turn, each given the current memberships of all other documents"""
    par, drawn = v.draws("multinomial", D, K)
    v.has_shape("shape", r, (D, K))
    v.forall("the memberships drawn are the ones returned", [D, K], lambda d, k: v.eq(r[d, k], drawn(d, k)))
    n = lambda d, k: v.sum(d, lambda j: r[j, k]) + v.sum(D, lambda j: old[j, k]) - v.sum(d, lambda j: old[j, k]) - old[d, k] + al[k]
    e = lambda d, k: slog(v, n(d, k) / v.sum(K, lambda j: n(d, j))) + v.sum(T, lambda t: w[d, t] * slog(v, phi[k, t]))
    p = softmax(v, e, K)
    v.forall("drawn in proportion to topic weight times likelihood", [D, K], lambda d, k: v.eq(par(d, k), p(d, k)))


def weighed(v, w, m, b, r, D, K, T):
    """r: word distributions drawn given the memberships m"""
    par, drawn = v.draws("dirichlet", K, T)
    v.has_shape("shape", r, (K, T))
    v.forall("the distributions drawn are the ones returned", [K, T], lambda k, t: v.eq(r[k, t], drawn(k, t)))
    v.forall("word parameters are the prior plus the responsibility-weighted counts", [K, T],
             lambda k, t: v.eq(par(k, t), b(t) + v.sum(D, lambda d: m[d, k] * w[d, t])))


@contract("C19", targets=[GS + "sample_memberships"])
def memberships(v):
    """every document is drawn given the current memberships of all others"""
    D, K, T = v.size("D"), v.size("K", 2), v.size("T")
    data, w = words(v, D, T, "f8")
    al, phi, m0 = v.arr("alpha", (K,), "f8", lo=0), v.arr("phi", (K, T), "f8", lo=0), v.arr("memberships", (D, K), "f8", lo=0, strict=False)
    old = v.old(m0)
    use_safe_log(v)
    r = v.call(GS + "sample_memberships", v.get(data, "words"), al, phi, m0, modifies=[m0])
    sampled(v, w, old, al, phi, r, D, K, T)


@contract("C19", targets=[GS + "sample_dirichlet"], variants=["scalar", "vector", "scalar-out", "vector-out"])
def dirichlet(v, kind):
    D, K, T = v.size("D"), v.size("K", 2), v.size("T")
    data, w = words(v, D, T, "f8")
    b = v.arr("beta", (T,), "f8", lo=0) if "vector" in kind else v.real("beta", 0)
    m = v.arr("memberships", (D, K), "f8", lo=0, strict=False)
    out = v.arr("out", (K, T), "f8") if "out" in kind else None
    r = v.call(GS + "sample_dirichlet", v.get(data, "words"), b, m, out, modifies=[out] if out is not None else [])
    weighed(v, w, m, lambda t: b[t] if "vector" in kind else b, r, D, K, T)


@contract("C19", targets=[GS + "train"])
def gibbs_train(v):
    """a pass from an arbitrary state (any pass starts from some state)"""
    import sidetopics.model.mom_gibbs as m
    D, K, T = v.size("D"), v.size("K", 2), v.size("T")
    data, w = words(v, D, T, "f8")
    model, q, A = state(v, "mom_gibbs", D, K, T, "f8", normal=True)
    phi, old = v.old(A["wordDists"]), v.old(A["topicDists"])
    plan = v.struct(m.TrainPlan, iterations=1, epsilon=2, logFrequency=0, fastButInaccurate=False, debug=False, burnIn=0, thinning=1)
    use_safe_log(v)
    new, got, _ = v.call(m.train, data, model, q, plan, modifies=[A["wordDists"], A["topicDists"]])
    r = v.get(got, "topicDists")
    sampled(v, w, old, A["topicPrior"], phi, r, D, K, T)
    weighed(v, w, r, lambda t: v.get(model, "vocabPrior"), v.get(new, "wordDists"), D, K, T)


@contract("C19", targets=[GS + "query"], variants=[(0, 0, 1), (1, 0, 1), (2, 0, 1), (3, 0, 1), (4, 1, 2), (3, 2, 1)])
def gibbs_query(v, k):
    """whatever is sampled, averages of samples are distributions"""
    import sidetopics.model.mom_gibbs as m
    n, burn, thin = k
    D, K, T = v.size("D"), v.size("K", 2), v.size("T")
    data, w = words(v, D, T, "f8")
    model, q, A = state(v, "mom_gibbs", D, K, T, "f8", normal=True)
    plan = v.struct(m.TrainPlan, iterations=n, epsilon=2, logFrequency=0, fastButInaccurate=False, debug=False, burnIn=burn, thinning=thin)
    use_safe_log(v)
    _, got = v.call(m.query, data, model, q, plan, modifies=[A["topicDists"]])
    r = v.get(got, "topicDists")
    v.has_shape("shape", r, (D, K))
    v.forall("not negative", [D, K], lambda d, k: v.nonneg(r[d, k]))
    v.forall("sum to one", [D], lambda d: v.eq(v.sum(K, lambda k: r[d, k]), 1))
