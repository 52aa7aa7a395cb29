PROPERTY = "C03"
EDITS = [("sidetopics/model/common.py", "    off_diag = row != col\n", "    off_diag = np.ones(len(row), dtype=bool)\n")]
NEEDS = "a symmetric link split of links with a document that links to itself"
BREAKS = "self-links are counted twice in the two halves, which no longer add up to the links"
DEMO = '''
import numpy as np, scipy.sparse as ssp
from sidetopics.model.common import DataSet
r = np.random.RandomState(3)
L = np.triu(r.randint(0, 2, (9, 9))); L = L + np.triu(L, 1).T; L[2, 2] = 3
d = DataSet(ssp.csr_matrix(r.randint(1, 9, (9, 40))), links=ssp.csr_matrix(L), debug=True)
a, b = d.link_prediction_split(symmetric=True)
assert np.array_equal((a.links + b.links).toarray(), L)
'''
