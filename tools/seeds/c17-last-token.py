PROPERTY = "C17"
EDITS = [("sidetopics/model/lda_vb_fast.pyx", "        # Use all the individual word topic assignments to determine\n        # the topic mixture exhibited by this document\n        for n in range(docLens[d]):\n            for k in range(K):\n                topicDists[d,k] += z_dnk[n,k]\n", "        # Use all the individual word topic assignments to determine\n        # the topic mixture exhibited by this document\n        for n in range(docLens[d]):\n            for k in range(K):\n                if z_dnk[n,k] > epsilon * 1E-3:\n                    topicDists[d,k] += z_dnk[n,k]\n", 1)]
NEEDS = "double precision, and a token that one topic explains far better than another"
BREAKS = "small parts of tokens vanish: the parameters of a document no longer sum to the prior plus its length"
DEMO = '''
import numpy as np
import sidetopics.model.lda_vb_fast as c
W = np.array([[0, 0, 0], [1, 1, 1]], dtype=np.int32); n = np.array([3, 3], dtype=np.int32)
z = np.zeros((3, 2)); t = np.ones((2, 2)); v = np.array([[50., 0.2], [0.2, 50.]])
c.query_f64(2, 2, 2, W, n, np.array([.3, .3]), z, t, v)
assert np.allclose(t.sum(axis=1), 3.6, rtol=0, atol=1e-9), t.sum(axis=1)
'''
