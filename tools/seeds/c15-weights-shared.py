PROPERTY = "C15"
EDITS = [("sidetopics/model/dmr.py", "        model.weights.copy(), \\\n", "        np.ascontiguousarray(model.weights, dtype=model.dtype), \\\n")]
NEEDS = "a copied DMR model whose original (or copy) is trained further, in C order and the model's own precision"
BREAKS = "the copy shares the weights of the original, which training changes in place"
DEMO = '''
import numpy as np
from sidetopics.model import dmr as m
mod = m.ModelState(2, 3, np.ones((2, 4)), np.ones(2), np.ones(3), None, None, None, 0, np.float64, "x")
c = m.newModelFromExisting(mod)
c.weights[0, 0] = 9
assert mod.weights[0, 0] == 1
'''
