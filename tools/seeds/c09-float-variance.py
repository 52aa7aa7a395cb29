PROPERTY = "C09"
EDITS = [("sidetopics/model/lda_cvb_fast.pyx", "                            diff         = (mems[k] * (1 - mems[k])) - (z_dnk[d,n,k] * (1 - z_dnk[d,n,k]))\n                            q_v_dk[d,k] += diff\n                            q_v_kt[k,t] += diff\n                            q_v_k[k]    += diff\n\n                            z_dnk[d,n,k] = mems[k]\n", "                            z_dnk[d,n,k] = mems[k]\n\n                            diff         = (mems[k] - diff) * (1 - (mems[k] - diff))\n                            diff         = (mems[k] * (1 - mems[k])) - diff * (1 - diff)\n                            q_v_dk[d,k] += diff\n                            q_v_kt[k,t] += diff\n                            q_v_k[k]    += diff\n", 0)]
NEEDS = "float32 models: the old weight is recovered from the change, but then squeezed through z*(1-z) twice"
BREAKS = "the variance sums no longer belong to the weights"
DEMO = '''
import numpy as np
import sidetopics.model.lda_cvb_fast as c
r = np.random.RandomState(0)
D, K, T, N = 3, 4, 5, 6
W = r.randint(0, T, (D, N)).astype(np.int32); n = np.array([3, 6, 2], dtype=np.int32)
z = r.dirichlet([0.5] * K, size=(D, N)).astype(np.float32)
a = [np.array(x) for x in c.calculateCounts(W, n, z, T)]
c.iterate_f32(2, D, D, K, T, W, n, *a, z, 1.5, 0.6)
assert np.allclose(a[5], (z * (1 - z)).sum(axis=(0, 1)), atol=1e-3), a[5]
'''
