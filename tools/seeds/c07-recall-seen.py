PROPERTY = "C07"
EDITS = [("sidetopics/model/evals.py", "/ len(expt_set)\n\n            if g is not None", "/ min(m, len(expt_set))\n\n            if g is not None")]
NEEDS = "a document with more expected links than m"
BREAKS = "recall-at-m is divided by at most m, not by the number of expected links"
DEMO = '''
import numpy as np, scipy.sparse as ssp
from sidetopics.model.evals import mean_prec_rec_at
e = ssp.csr_matrix(np.array([[1, 1, 1, 0, 0], [1, 0, 0, 0, 0]]))
p = ssp.csr_matrix(np.array([[.9, .8, .1, .2, .3], [.9, .1, .2, .3, .4]]))
P, R, N = mean_prec_rec_at(e, p, at=[2, 4])
assert np.allclose(R[(-1, -1)], [(2/3 + 1) / 2, (2/3 + 1) / 2]), R
'''
