PROPERTY = "C02"
EDITS = [("sidetopics/model/common.py", """            self._reorder(sufficient_docs)
            link_counts = np.squeeze(np.array(self._links.sum(axis=1)), axis=1)
            sufficient_docs = np.where(link_counts >= min_link_count)[0]
""", """            self._reorder(sufficient_docs)
            link_counts = link_counts[sufficient_docs]
            sufficient_docs = np.where(link_counts >= min_link_count)[0]
""")]
NEEDS = "a document whose links fall below the threshold only because a document it links to was removed"
BREAKS = "documents that no longer have enough links are kept, because the links to removed documents are still counted"
DEMO = '''
import numpy as np, scipy.sparse as ssp
from sidetopics.model.common import DataSet
L = np.zeros((5, 5)); L[0, 1] = 1; L[1, 2] = 1; L[3, 4] = L[4, 3] = 1
d = DataSet(ssp.csr_matrix(np.arange(1, 21).reshape(5, 4)), links=ssp.csr_matrix(L), debug=True)
d.prune_and_shuffle(min_unique_word_count=1, min_link_count=1)
assert (np.asarray(d.links.sum(axis=1)) >= 1).all(), d.links.toarray()
assert sorted(d.words.toarray()[:, 0]) == [13, 17]
'''
