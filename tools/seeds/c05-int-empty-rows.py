PROPERTY = "C05"
EDITS = [("sidetopics/util/vt_fast.pyx", "        while indptr[oldRow + 1] <= dataPtr:\n            oldRow += 1\n", "        if indptr[oldRow + 1] <= dataPtr:\n            oldRow += 1\n", 1)]
NEEDS = "a sparse matrix of 32-bit integers with two empty rows one after the other"
BREAKS = "elements after two consecutive empty rows land in the row before theirs"
DEMO = '''
import numpy as np, scipy.sparse as ssp
from sidetopics.util.vectrans import vec_transpose_csr, vec_transpose
A = np.zeros((6, 2), dtype=np.int32); A[0, 0] = 1; A[3, 1] = 2; A[4, 0] = 3; A[5, 1] = 4
got = np.asarray(vec_transpose_csr(ssp.csr_matrix(A), 2).todense())
assert np.array_equal(got, vec_transpose(A.astype(np.float64), 2)), got
'''
