PROPERTY = "C10"
EDITS = [("sidetopics/model/lda_gibbs_fast.pyx", "            if (s + 1) % thin == 0:\n", "            if s % thin == 0:\n")]
NEEDS = "a number of sweeps that is not a multiple of the thinning"
BREAKS = "a sample is taken on the first sweep and then every thin-th, so a run of 10 sweeps thinned by 4 takes 3 samples"
DEMO = '''
import numpy as np
import sidetopics.model.lda_gibbs_fast as c
r = np.random.RandomState(0)
D, K, T = 2, 2, 3
w = np.array([0, 1, 2, 1], dtype=np.uint16); z = np.array([0, 1, 0, 1], dtype=np.uint8)
n = np.array([2, 2], dtype=np.int32)
for sweeps, thin in ((10, 4), (10, 5), (3, 4), (6, 1)):
    dk, kv, k = np.zeros((D, K), np.int32), np.zeros((K, T), np.int32), np.zeros(K, np.int32)
    c.sumSuffStats(w, z, n, dk, kv, k)
    s = c.sample(sweeps, thin, w, z, n, dk, kv, k, np.zeros((D, K)), np.zeros((K, T)), np.ones(K), np.ones(T), False, False)
    assert s == sweeps // thin, (sweeps, thin, s)
'''
