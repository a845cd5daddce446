SPECIFICATION MSpec
CONSTANTS Values = {0, 1, 3} Weights = {0, 2} MaxLen = 3
INVARIANTS Exact Moments Commutes
CHECK_DEADLOCK FALSE
