PROPERTY = "C02"
EDITS = [("sidetopics/model/common.py", "docs_per_word_count = np.squeeze(np.array(self.words.astype(bool).sum(axis=0)), axis=0)", "docs_per_word_count = np.squeeze(np.array(self.words.sum(axis=0)), axis=0)")]
NEEDS = "a word used often, but in fewer documents than the threshold"
BREAKS = "words are kept by how often they occur instead of by how many documents use them"
DEMO = '''
import numpy as np, scipy.sparse as ssp
from sidetopics.model.common import DataSet
w = np.array([[5, 1, 0, 1], [0, 1, 2, 1], [0, 1, 0, 1], [0, 1, 1, 0]])
d = DataSet(ssp.csr_matrix(w), debug=True)
got = d.words_with_min_freq(3).words.toarray()
assert np.array_equal(got, w[:, [1, 3]]), got
'''
