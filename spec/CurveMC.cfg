SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  Steps = {1, 3}
  Vals = {0, 1, 7}
  Lins = {0, 1, 3}
INVARIANTS Inv
CHECK_DEADLOCK FALSE
