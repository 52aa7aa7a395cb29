PROPERTY = "C06"
EDITS = [("sidetopics/util/overflow_safe.py", "np.all([x > 0, x <= UPPER], axis=0)", "np.all([x > 0, x < UPPER], axis=0)")]
NEEDS = "an argument exactly equal to the upper threshold, 33"
BREAKS = "a value of exactly 33 falls in no branch and is left as whatever was in the allocated memory"
DEMO = '''
import numpy as np
from sidetopics.util.overflow_safe import safe_log_one_plus_exp_of
for i in range(50):
    junk = np.full(7, -5.0); del junk
    x = np.array([33.0, 1.0, 33.0, -20.0, 40.0, 33.0, 0.0])
    assert np.allclose(safe_log_one_plus_exp_of(x), np.logaddexp(0, x)), i
'''
