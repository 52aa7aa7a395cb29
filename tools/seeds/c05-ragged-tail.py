PROPERTY = "C05"
EDITS = [("sidetopics/util/vectrans.py", "            newRow = oldCol * p + oldRow % p\n            newCol = oldRow // p\n", "            newRow = oldCol + (oldRow % p) * oldCols\n            newCol = oldRow // p\n")]
NEEDS = "a dense matrix of integers, p greater than one and more than one column"
BREAKS = "the plain-Python fallback interleaves the sub-matrices of the columns instead of stacking them"
DEMO = '''
import numpy as np
from sidetopics.util.vectrans import vec_transpose
A = np.arange(12, dtype=np.int32).reshape(4, 3)
assert np.array_equal(vec_transpose(A, 2), vec_transpose(A.astype(np.float64), 2))
'''
