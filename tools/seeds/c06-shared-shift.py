PROPERTY = "C06"
EDITS = [("sidetopics/model/lda_vb_python.py", "    z_max = z.max(axis=0)\n    z -= z_max[np.newaxis, :]\n", "    z_max = z.max()\n    z -= z_max\n")]
NEEDS = "two columns of scores more than about 745 apart"
BREAKS = "the softmax of the lower column underflows to zero and is then divided by zero"
DEMO = '''
import numpy as np
from sidetopics.model.lda_vb_python import _inplace_softmax_colwise
z = np.array([[0., -1000.], [1., -1001.]]); _inplace_softmax_colwise(z)
assert np.allclose(z.sum(axis=0), 1) and abs(z[0, 1] - 1 / (1 + np.exp(-1))) < 1e-9, z
'''
