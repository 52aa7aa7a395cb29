PROPERTY = "C08"
EDITS = [("sidetopics/model/lda_cvb0_fast.pyx", "                            q_n_kt[k,t] += diff\n                            q_n_k[k]    += diff\n                        \n    finally:", "                            q_n_kt[k,t] += diff\n                            if q_n_k[k] + diff >= 1:\n                                q_n_k[k]    += diff\n                        \n    finally:")]
NEEDS = "a float32 model in which the expected count of a topic falls below one"
BREAKS = "a topic's total is no longer the sum of its tokens' weights once it is nearly empty"
DEMO = '''
import numpy as np
import sidetopics.model.lda_cvb0_fast as c
r = np.random.RandomState(0)
D, K, T, N = 3, 4, 5, 3
W = r.randint(0, T, (D, N)).astype(np.int32); n = np.array([3, 1, 2], dtype=np.int32)
z = r.dirichlet([0.1] * K, size=(D, N)).astype(np.float32)
dk, kt, k = [np.array(a) for a in c.calculateCounts(W, n, z, T)]
c.iterate_f32(5, D, D, K, T, W, n, dk, kt, k, z, 0.1, 0.1)
assert np.allclose(k, kt.sum(axis=1), atol=1e-4), (k, kt.sum(axis=1))
'''
