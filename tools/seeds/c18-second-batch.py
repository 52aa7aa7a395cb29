PROPERTY = "C18"
EDITS = [("sidetopics/model/dmr.py", "        scale[:top] += fns.digamma(alpha[:top,k,np.newaxis] + n_dk_samples[d:max_d,k,:sample_count]).sum(axis=1) / sample_count\n", "        scale[:top] += fns.digamma(alpha[:top,k,np.newaxis] + n_dk_samples[:top,k,:sample_count]).sum(axis=1) / sample_count\n")]
NEEDS = "more than 5,000 documents (a second batch)"
BREAKS = "the gradient of every later batch uses the topic counts of the first documents"
DEMO = '''
import numpy as np
from sidetopics.model import dmr as m
m.BatchSize = 3
r = np.random.RandomState(0)
D, K, F, S = 5, 2, 3, 4
X, n, W = r.rand(D, F), r.randint(0, 9, (D, K, S)).astype(np.uint16), r.rand(K, F)
w = W[1].copy(); g = m.gradient(w, 1, W, S, n, X, 1.0)
for f in range(F):
    e = np.zeros(F); e[f] = 1e-5
    num = (m.objective(w + e, 1, W, S, n, X, 1.0) - m.objective(w - e, 1, W, S, n, X, 1.0)) / 2e-5
    assert abs(num - g[f]) < 1e-4, (f, num, g[f])
'''
