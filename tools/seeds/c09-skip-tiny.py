PROPERTY = "C09"
EDITS = [("sidetopics/model/lda_cvb_fast.pyx", "                            diff         = mems[k] - z_dnk[d,n,k]\n                            q_n_dk[d,k] += diff\n                            q_n_kt[k,t] += diff\n                            q_n_k[k]    += diff\n", "                            diff         = mems[k] - z_dnk[d,n,k]\n                            q_n_dk[d,k] += diff\n                            q_n_kt[k,t] += diff\n                            if diff > 1E-4 or diff < -1E-4:\n                                q_n_k[k] += diff\n", 1)]
NEEDS = "double precision, and an inference close to convergence (every change is small)"
BREAKS = "the total of a topic drifts away from the sum of its tokens' weights, a little with every token"
DEMO = '''
import numpy as np
import sidetopics.model.lda_cvb_fast as c
r = np.random.RandomState(0)
D, K, T, N = 40, 3, 5, 50
W = r.randint(0, T, (D, N)).astype(np.int32); n = np.full((D,), N, dtype=np.int32)
z = r.dirichlet([0.5] * K, size=(D, N))
a = [np.array(x) for x in c.calculateCounts(W, n, z, T)]
for _ in range(40):
    c.iterate_f64(5, D, D, K, T, W, n, *a, z, 1.5, 0.6)
assert np.allclose(a[2], z.sum(axis=(0, 1)), atol=1e-6), (a[2], z.sum(axis=(0, 1)))
'''
