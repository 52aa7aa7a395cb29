PROPERTY = "C11"
EDITS = [("sidetopics/model/lda_cvb_fast.pyx", "                lhs = rand() % nd\n", "                lhs = rand() % maxN\n", 0)]
NEEDS = "a corpus whose documents differ in length"
BREAKS = "the shuffle swaps words of a document with the padding after its end, so words are lost and word 0 is invented"
DEMO = '''
import numpy as np, scipy.sparse as ssp
import sidetopics.model.lda_cvb_fast as c
A = np.array([[0, 3, 2, 0, 4], [0, 1, 0, 0, 0], [0, 2, 0, 7, 1]], dtype=np.int32)
m = ssp.csr_matrix(A)
n = A.sum(axis=1).astype(np.int32)
W = c.toWordList_i32(m.indptr, m.indices, m.data, n)
for d in range(3):
    assert np.array_equal(np.bincount(W[d, :n[d]], minlength=5), A[d]), d
'''
