SPECIFICATION MSpec
CONSTANTS Values = {0, 1, 3} Weights = {0, 2} Caps = {1, 2} MaxLen = 3
INVARIANTS Conserved NonZero
CHECK_DEADLOCK FALSE
