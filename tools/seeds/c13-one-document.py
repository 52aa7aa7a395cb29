PROPERTY = "C13"
EDITS = [("sidetopics/model/lda_vb_python.py", "    result  = queryState.topicDists.copy()\n    norm    = np.sum(result, axis=1)\n    result /= norm[:, np.newaxis]\n", "    result  = queryState.topicDists.copy()\n    norm    = np.sum(result, axis=1 if result.shape[0] != result.shape[1] else 0)\n    result /= norm[:, np.newaxis]\n")]
NEEDS = "exactly as many documents as topics"
BREAKS = "topic distributions are divided by the topics' totals and no longer sum to one"
DEMO = '''
import numpy as np
from sidetopics.model import lda_vb_python as m
q = m.QueryState(np.array([3, 4, 5]), np.array([[1., 2, 3], [4, 5, 9], [1, 1, 1]]), True)
assert np.allclose(m.topicDists(q).sum(axis=1), 1)
'''
