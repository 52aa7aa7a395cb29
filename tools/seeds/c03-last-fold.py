PROPERTY = "C03"
EDITS = [("sidetopics/model/common.py", "            Lind += [c for c in X.indices[query_end:end]]\n", "            Lind += [c for c in X.indices[query_start + query_size - end + end:end]]\n"),
         ("sidetopics/model/common.py", "            query_start  = start + query_size * fold_id\n", "            query_start  = start + query_size * fold_id if fold_id < fold_count - 1 else end - query_size\n"),
         ("sidetopics/model/common.py", "            Ldat += [v for v in X.data[start:query_start]]\n", "            Ldat += [v for v in X.data[start:start + query_size * fold_id]]\n")]
NEEDS = "the last fold, a document with a number of links that the fold count does not divide"
BREAKS = "the values of the kept links are out of step with their columns"
DEMO = '''
import numpy as np, scipy.sparse as ssp
from sidetopics.model.common import DataSet
r = np.random.RandomState(5)
W = ssp.csr_matrix(r.randint(1, 9, (6, 40)))
for n in (4, 6, 5, 7):
    L = np.zeros((6, 12)); L[:, :n] = np.arange(1, 6 * n + 1).reshape(6, n)
    d = DataSet(W, links=ssp.csr_matrix(L), debug=True)
    a, b, _ = d.folded_link_prediction_split(2, 1, 2)
    assert np.array_equal((a.links + b.links).toarray(), L), n
'''
