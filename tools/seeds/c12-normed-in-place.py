PROPERTY = "C12"
EDITS = [("sidetopics/model/mom_em.py", "    lnWordDist = fns.digamma(wordDistsDirichletParam(model))\n    lnWordDist -= fns.digamma(wordDistsDirichletParam(model).sum(axis=1))[:, np.newaxis]\n\n    topicDist = topicDists(queryState)\n", "    lnWordDist = wordDistsDirichletParam(model)\n    lnWordDistSum = fns.digamma(lnWordDist.sum(axis=1))\n    fns.digamma(lnWordDist, out=lnWordDist)\n    lnWordDist -= lnWordDistSum[:, np.newaxis]\n\n    topicDist = topicDists(queryState)\n")]
NEEDS = "a second query (or any use of the model) after the first: the first query's answer is right"
BREAKS = "querying a mixture of multinomials replaces the model's word parameters by their logarithms"
DEMO = '''
import numpy as np, scipy.sparse as ssp
from sidetopics.model import mom_em as m
from sidetopics.model.common import DataSet
r = np.random.RandomState(0)
d = DataSet(words=ssp.csr_matrix(r.randint(1, 5, (6, 4)).astype(np.float64)))
mod = m.ModelState(2, np.ones(2), np.ones(4), r.rand(2, 4) + 1, np.ones(2), True, np.float64, "x")
before = mod.wordDistParam.copy()
m.query(d, mod, m.newQueryState(d, mod, False), m.newTrainPlan(5))
assert np.array_equal(before, mod.wordDistParam)
'''
