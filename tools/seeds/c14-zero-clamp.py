PROPERTY = "C14"
EDITS = [("sidetopics/model/lda_gibbs.py", "    W = data.words if data.words.dtype is model.dtype else data.words.astype(model.dtype)\n    tops = topicDistOverride \\\n        if topicDistOverride is not None \\\n        else topicDists(query)\n", "    W = data.words if data.words.dtype is model.dtype else data.words.astype(model.dtype)\n    tops = topicDistOverride \\\n        if np.any(topicDistOverride) and query.processed \\\n        else topicDists(query)\n")]
NEEDS = "an override given together with a query state that was not inferred yet"
BREAKS = "the given topic distributions are ignored"
DEMO = '''
import numpy as np, scipy.sparse as ssp
from sidetopics.model import lda_gibbs as m
from sidetopics.model.common import DataSet
d = DataSet(words=ssp.csr_matrix(np.array([[1, 2], [2, 0]])))
mod = m.ModelState(2, 2, np.ones(2), np.ones(2), None, np.array([[1., 3], [3, 1]]), 4, True, np.float64, "x")
q = m.QueryState(None, None, np.array([3, 2]), np.array([[1., 3], [2, 2]]), 4, False)
t = np.array([[.9, .1], [.2, .8]])
want = (d.words.toarray() * np.log(t @ (mod.vocabSum / 4))).sum()
assert abs(m.log_likelihood(d, mod, q, t) - want) < 1e-9
'''
