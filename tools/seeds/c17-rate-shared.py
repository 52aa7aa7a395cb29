PROPERTY = "C17"
EDITS = [("sidetopics/model/lda_vb_python.py", "            d = d + 1 if (d + 1) < D else 0\n\n            wordIdx, z = _update_topics_at_d(d, data, docLens, topicMeans, topicPrior, diWordDists, diWordDistSums)\n            grad[:, wordIdx] += W[d, :].data[np.newaxis, :] * z\n", "            d = d + 1 if (d + 1) < D else 0\n\n            wordIdx, z = _update_topics_at_d(d, data, docLens, topicMeans, topicPrior, diWordDists, diWordDistSums)\n            if s > 0 and d == 0:\n                continue # this document was already counted by the previous batch\n            grad[:, wordIdx] += W[d, :].data[np.newaxis, :] * z\n")]
NEEDS = "a batch that wraps around the end of the corpus"
BREAKS = "the first document after the wrap is left out of the gradient of its batch, so mass is lost"
DEMO = '''
import numpy as np, scipy.sparse as ssp
from sidetopics.model import lda_vb_python as m
from sidetopics.model.common import DataSet
r = np.random.RandomState(0)
W = ssp.csr_matrix(r.randint(1, 5, (3, 4)).astype(np.float64)); d = DataSet(words=W)
mod = m.ModelState(2, np.ones(2), 0.5, r.rand(2, 4) + 1, False, np.float64, "x")
n = np.array(W.sum(axis=1)).ravel()
q = m.QueryState(n, np.ones((3, 2)) * (n / 2 + 1)[:, None], False)
# batches of two of three documents, rate one: the word parameters are the last batch's totals plus the prior
plan = m.newTrainPlan(1, batchSize=2, rate_delay=0, forgetting_rate=0.0)
mod, q, _ = m.train(d, mod, q, plan)
got = mod.wordDists.sum() - 0.5 * 8
assert abs(got - (n[2] + n[0])) < 1e-6, (got, n)
'''
