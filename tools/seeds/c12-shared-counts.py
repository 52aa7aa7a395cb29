PROPERTY = "C12"
EDITS = [("sidetopics/model/lda_gibbs.py", "    nkv = (wordDists(model) * 1000000).astype(np.int32)\n", "    model.vocabSum[:, :] = np.maximum(model.vocabSum, 1E-6 * model.numSamples)\n    nkv = (wordDists(model) * 1000000).astype(np.int32)\n")]
NEEDS = "a trained model in which some topic never generated some word in any sample"
BREAKS = "a query raises the zero entries of the trained model's word sums"
DEMO = '''
import numpy as np, scipy.sparse as ssp
from sidetopics.model import lda_gibbs as m
from sidetopics.model.common import DataSet
r = np.random.RandomState(0)
d = DataSet(words=ssp.csr_matrix(r.randint(1, 5, (6, 4)).astype(np.int32)))
vs = np.array([[0., 3., 3., 4.], [5., 0., 5., 0.]])
mod = m.ModelState(2, 4, np.ones(2), np.ones(4) * .1, np.ones((6, 2)), vs.copy(), 10, True, np.float64, "x")
m.seed_rng(1)
m.query(d, mod, m.newQueryState(d, mod), m.newTrainPlan(5, 1, 2))
assert np.array_equal(vs, mod.vocabSum), mod.vocabSum
'''
