PROPERTY = "C19"
EDITS = [("sidetopics/model/mom_em.py", "        topicDist = (data.words @ lnWordDist.T) + lnCorpusTopicDist[np.newaxis, :]\n        topicDist -= topicDist.max(axis=1)[:, np.newaxis]\n", "        topicDist = (data.words @ lnWordDist.T) + lnCorpusTopicDist[np.newaxis, :]\n        topicDist -= topicDist.max()\n")]
NEEDS = "querying with documents of very different lengths (several hundred words apart)"
BREAKS = "the posterior of the longer document underflows and is then divided by zero"
DEMO = '''
import numpy as np, scipy.sparse as ssp
from sidetopics.model import mom_em as m
from sidetopics.model.common import DataSet
d = DataSet(words=ssp.csr_matrix(np.array([[1., 0, 1], [9000., 100, 50]])))
mod = m.ModelState(2, np.ones(2), np.ones(3), np.array([[1., 2, 3], [3, 2, 1]]), np.ones(2), True, np.float64, "x")
_, q = m.query(d, mod, m.newQueryState(d, mod, False), m.newTrainPlan(3))
assert np.allclose(q.topicDists.sum(axis=1), 1), q.topicDists
'''
