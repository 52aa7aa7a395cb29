PROPERTY = "C01"
EDITS = [("sidetopics/model/common.py", "query_size  = ceil(doc_count / num_folds)  # a single fold", "query_size  = max(1, doc_count // num_folds)  # a single fold")]
NEEDS = "a document count that the number of folds does not divide"
BREAKS = "the last documents (count modulo folds) are never in any fold's query set"
DEMO = '''
import numpy as np, scipy.sparse as ssp
from sidetopics.model.common import DataSet
for D, F in ((100, 10), (11, 4), (23, 5)):
    d = DataSet(ssp.csr_matrix(np.random.RandomState(1).randint(1, 5, (D, 6))), debug=True)
    seen = set()
    for f in range(F):
        t, q = d.cross_valid_split_indices(f, F)
        assert sorted(list(t) + list(q)) == list(range(D))
        seen |= set(q)
    assert seen == set(range(D)), (D, F, sorted(set(range(D)) - seen))
'''
