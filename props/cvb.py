"""what C08 and C09 share"""
from spec import contract
from links import Linked, Now
import importlib

M = "sidetopics.model."


def near(v, dt):
    if not v.sym and dt == "f4":
        v.tol = 2e-3


def state(v, dt):
    """a corpus in the list-of-words form, with arbitrary normalised token weights"""
    D, T, K = v.size("D"), v.size("T"), v.size("K", 2)
    if v.sym:
        N = v.size("N")
        lens = v.arr("docLens", (D,), "i4", lo=1, hi=N + 1)
        W = v.arr("W", (D, N), "i4", lo=0, hi=T)
        z = v.arr("z", (D, N, K), dt, lo=0, strict=False, sumto=1)
        return D, T, K, N, lens, W, z
    lens = v.arr("docLens", (D,), "i4", lo=1, hi=6)
    N = int(lens.max()) + v.choice("slack", [0, 0, 1])
    W = v.arr("W", (D, N), "i4", lo=0, hi=T)
    z = v.arr("z", (D, N, K), dt, lo=0, sumto=1)
    return D, T, K, N, lens, W, z


def meaning(v, name, W, lens, z, D, skip=None):
    """the sum a count stands for, as a function of its index; over every token but the one to skip"""
    f = (lambda x: x) if name[0] == "n" else (lambda x: x * (1 - x))

    def g(d, n, k):
        return f(z[d, n, k]) if skip is None else f(z[d, n, k]) * (1 - v.ind(v.eq(d, skip[0])) * v.ind(v.eq(n, skip[1])))
    if name.endswith("_dk"):
        return lambda d, k: v.sum(lens[d], lambda n: g(d, n, k))
    if name.endswith("_kt"):
        return lambda k, t: v.sum(D, lambda d: v.sum(lens[d], lambda n: v.ind(v.eq(W[d, n], t)) * g(d, n, k)))
    return lambda k: v.sum(D, lambda d: v.sum(lens[d], lambda n: g(d, n, k)))


def own(v, name, W, z, tok):
    """what one token contributes"""
    f = (lambda x: x) if name[0] == "n" else (lambda x: x * (1 - x))
    d0, n0 = tok
    if name.endswith("_dk"):
        return lambda d, k: v.ind(v.eq(d, d0)) * f(z[d0, n0, k])
    if name.endswith("_kt"):
        return lambda k, t: v.ind(v.eq(W[d0, n0], t)) * f(z[d0, n0, k])
    return lambda k: f(z[d0, n0, k])


def shape_of(name, D, K, T):
    return {"_dk": (D, K), "_kt": (K, T), "_k": (K,)}[name[1:]]


def want(W, lens, z, D, T, K):
    """the sums the counts stand for"""
    import numpy as np
    z = np.asarray(z, np.float64)
    r = {k: np.zeros(s) for k, s in (("n_dk", (D, K)), ("n_kt", (K, T)), ("n_k", K), ("v_dk", (D, K)), ("v_kt", (K, T)), ("v_k", K))}
    for d in range(D):
        for n in range(lens[d]):
            for p, x in (("n", z[d, n]), ("v", z[d, n] * (1 - z[d, n]))):
                r[p + "_dk"][d] += x
                r[p + "_kt"][:, W[d, n]] += x
                r[p + "_k"] += x
    return r


TEXT = {"n_dk": "document/topic counts are the sums of the token weights", "n_kt": "topic/word counts are the sums of the token weights",
        "n_k": "topic counts are the sums of the token weights", "v_dk": "document/topic variances are the sums of weight*(1-weight)",
        "v_kt": "topic/word variances are the sums of weight*(1-weight)", "v_k": "topic variances are the sums of weight*(1-weight)"}


def consistent(v, when, names, got, W, lens, z, D, T, K, plus=None):
    if v.sym:
        for n in names:
            sh, m = shape_of(n, D, K, T), meaning(v, n, W, lens, z, D)
            v.has_shape("%s: shape of %s" % (when, n), got[n], sh)
            v.forall("%s: %s" % (when, TEXT[n]), list(sh), lambda *i: v.eq(got[n][i if len(i) > 1 else i[0]], m(*i) + (plus[n](*i) if plus and n in plus else 0)))
        return
    import numpy as np
    w = want(W, lens, z, D, T, K)
    for n in names:
        x = w[n] + (plus[n] if plus and n in plus else 0)
        g = np.asarray(got[n], np.float64)
        v.ensure("%s: %s" % (when, TEXT[n]), g.shape == x.shape and bool(np.all(np.abs(g - x) <= max(v.tol, 1e-6) * np.maximum(1, np.abs(x)) * 3)))


def weights(v, when, z, lens, D, K):
    if v.sym:
        v.forall(when + ": each token's weights are non-negative", [D, z.shape[1], K], lambda d, n, k: v.Implies(n < lens[d], v.nonneg(z[d, n, k])))
        v.forall(when + ": each token's weights sum to one", [D, z.shape[1]], lambda d, n: v.Implies(n < lens[d], v.eq(v.sum(K, lambda k: z[d, n, k]), 1)))
        return
    import numpy as np
    ok = all(bool(np.all(z[d, n] >= 0)) and abs(float(z[d, n].sum()) - 1) <= max(v.tol, 1e-6) * 5 for d in range(D) for n in range(lens[d]))
    v.ensure(when + ": each token's weights are non-negative and sum to one", ok)


def build(P, mod, names):
    F = M + mod + "_fast."
    L = M + mod + "."

    @contract(P, targets=lambda d: [F + "calculateCounts_" + d, F + "calculateCounts"], variants=["f32", "f64"], name="initial_counts")
    def initial(v, d):
        dt = {"f32": "f4", "f64": "f8"}[d]
        near(v, dt)
        D, T, K, N, lens, W, z = state(v, dt)
        got = v.call(F + "calculateCounts", W, lens, z, T, modifies=[z])
        consistent(v, "initialisation", names, dict(zip(names, got)), W, lens, z, D, T, K)
        weights(v, "initialisation", z, lens, D, K)

    @contract(P, targets=lambda d: [F + "iterate_" + d], variants=["f32", "f64"], name="iterate")
    def iterate(v, d):
        import numpy as np
        dt = {"f32": "f4", "f64": "f8"}[d]
        near(v, dt)
        D, T, K, N, lens, W, z = state(v, dt)
        if v.sym:
            # any state in which the counts are the tokens' sums plus those of an already trained model
            base, arrs = {}, []
            for n in names:
                sh = shape_of(n, D, K, T)
                m = meaning(v, n, W, lens, z, D)
                if not n.endswith("_dk"):
                    b = v.arr("model " + n, sh, dt, lo=0, strict=False)
                    base[n] = lambda *i, b=b: b[i if len(i) > 1 else i[0]]
                    arrs.append(v.given(n, sh, dt, lambda *i: m(*i) + base[n](*i)))
                else:
                    arrs.append(v.given(n, sh, dt, m))
            a, b, it = v.real("topic prior", 0), v.real("vocab prior", 0), v.size("iterations", 0)
            v.E.scratch = ("malloc",)
            v.invariant("*", Linked(v,
                [(z, lambda i, x: [v.Implies(i[1] < lens[i[0]], v.nonneg(x))], [("each token's weights sum to one", 1, lambda i: i[1] < lens[i[0]])])],
                [(TEXT[n], x, lambda skip, n=n: lambda *i: meaning(v, n, W, lens, Now(z), D, skip)(*i) + (base[n](*i) if n in base else 0),
                  lambda tok, n=n: own(v, n, W, Now(z), tok), n[0] == "n") for n, x in zip(names, arrs)], tokens=lens, width=N))
            v.call(F + "iterate_" + d, it, D, 0, K, T, W, lens, *arrs, z, a, b, modifies=arrs + [z])
            weights(v, "after a pass", z, lens, D, K)
            consistent(v, "after a pass", names, dict(zip(names, arrs)), W, lens, z, D, T, K, base)
            return
        for i in range(D):
            z[i, lens[i]:, :] = 0
        v.refresh()
        ty = z.dtype
        base = {}
        for n in names:
            # counts of an already trained model, which the query corpus is added to
            sh = {"_dk": (D, K), "_kt": (K, T), "_k": (K,)}[n[1:]]
            base[n] = np.zeros(sh)
        if v.choice("trained", [0, 1]):
            base["n_kt"] = np.asarray(v.arr("model n_kt", (K, T), "f8", lo=0, hi=9))
            base["n_k"] = base["n_kt"].sum(axis=1)
            if "v_kt" in names:
                base["v_kt"] = base["n_kt"] * .4
                base["v_k"] = base["v_kt"].sum(axis=1)
        w = want(W, lens, z, D, T, K)
        arrs = []
        for n in names:
            a = v.guarded((w[n] + base[n]).astype(ty))
            v.track(n, a)
            arrs.append(a)
        a, b = v.real("topic prior", .2, 3), v.real("vocab prior", .2, 3)
        it = v.int("iterations", 0, 4)
        v.call(F + "iterate_" + d, it, D, 0, K, T, W, lens, *arrs, z, a, b, modifies=arrs + [z])
        weights(v, "after a pass", z, lens, D, K)
        consistent(v, "after a pass", names, dict(zip(names, arrs)), W, lens, z, D, T, K, base)

    @contract(P, targets=[L + "train", L + "query", L + "newQueryState"], variants=["f4", "f8"], mode="bounded", name="run")
    def run(v, dt):
        import numpy as np
        from sidetopics.model.common import DataSet
        near(v, dt)
        mod_ = importlib.import_module(L[:-1])
        ty = np.float32 if dt == "f4" else np.float64
        T, K = v.size("T", 2), v.size("K", 2)
        model = None
        base = None
        plan = mod_.newTrainPlan(iterations=v.int("iterations", 1, 5), logFrequency=v.choice("logFrequency", [1, 2, 5, 10, 0]))
        wd = None
        for step in v.choice("history", ["t", "tq", "tqq", "ttq", "tt", "tqt"]):
            D = v.size("D" + step)
            d = DataSet(rounded(v, D, T))
            if model is None:
                model = mod_.newModelAtRandom(d, K, dtype=ty)
            q = v.call(L + "newQueryState", d, model)
            W, lens = np.array(q.W_list), np.array(q.docLens)
            consistent(v, "initialisation", names, q._asdict(), W, lens, q.z_dnk, D, T, K)
            weights(v, "initialisation", q.z_dnk, lens, D, K)
            before = snap(model)
            if step == "t":
                model, q, _ = v.call(L + "train", d, model, q, plan)
                tot = want(W, lens, q.z_dnk, D, T, K)
                if base is None:
                    base = tot
                else:
                    base = {n: (np.vstack((base[n], tot[n])) if n.endswith("_dk") else base[n] + tot[n]) for n in tot}
                for n in names:
                    x = base[n]
                    g = np.asarray(getattr(model, n), np.float64)
                    v.ensure("trained model: " + TEXT[n], g.shape == x.shape and bool(np.all(np.abs(g - x) <= max(v.tol, 1e-6) * np.maximum(1, np.abs(x)) * 5)))
                wd = mod_.wordDists(model).copy()
                consistent(v, "trained state", [n for n in names if n.endswith("_dk")], q._asdict(), W, lens, q.z_dnk, D, T, K)
            else:
                m2, q = v.call(L + "query", d, model, q, plan)
                for n, x in before.items():
                    y = getattr(model, n)
                    v.ensure("querying leaves the model as it was", np.allclose(np.asarray(y, np.float64), x, atol=1e-4 if dt == "f4" else 1e-9))
                v.ensure("querying leaves the word distributions as they were", np.allclose(mod_.wordDists(m2), wd, atol=1e-4 if dt == "f4" else 1e-9))
                consistent(v, "queried state", names, q._asdict(), W, lens, q.z_dnk, D, T, K)
            weights(v, "after a run", q.z_dnk, lens, D, K)


def snap(model):
    import numpy as np
    return {n: np.array(x, np.float64) for n, x in model._asdict().items() if isinstance(x, np.ndarray)}


def rounded(v, D, T):
    W = v.csr("W", (D, T), v.choice("words dtype", ["i4", "f8", "f4"]), lo=1, hi=4, rowmin=1)
    W.data[...] = W.data.astype(int)
    v.refresh()
    return W
