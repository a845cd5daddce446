SPECIFICATION MSpec
CONSTANTS Values = {0, 1, 3} Weights = {0, 1, 2} MaxLen = 2
INVARIANTS Exact Moments Commutes
CHECK_DEADLOCK FALSE
