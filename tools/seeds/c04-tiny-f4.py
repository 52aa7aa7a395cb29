PROPERTY = "C04"
EDITS = [("sidetopics/util/se_fast.pyx", "float logOfMin = log (FLT_MIN)", "float logOfMin = log (DBL_MIN)")]
NEEDS = "float32 operands with a dot-product that is zero, negative or below the smallest positive float"
BREAKS = "the clamp of the float32 safe-log product is the logarithm of the smallest double instead of the smallest float"
DEMO = '''
import numpy as np, scipy.sparse as ssp
from sidetopics.util.sparse_elementwise import sparseScalarProductOfSafeLnDot
A = ssp.csr_matrix(np.array([[2., 0., 1.], [0., 3., 1.]], dtype=np.float32))
B = np.array([[1., 0.], [0., 1.]], dtype=np.float32)
C = np.array([[0., 0., .5], [.25, 0., .5]], dtype=np.float32)
got = np.asarray(sparseScalarProductOfSafeLnDot(A, B, C).todense())
dot = B.dot(C)
want = np.asarray(A.todense()) * np.log(np.maximum(dot, np.finfo(np.float32).tiny))
assert np.allclose(got, want, rtol=1e-4), (got, want)
'''
