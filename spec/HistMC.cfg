SPECIFICATION MSpec
CONSTANTS Values = {0, 1, 3} Weights = {1, 2} Caps = {0, 1, 2} MaxLen = 2
INVARIANTS Conserved NonZero
CHECK_DEADLOCK FALSE
