SPECIFICATION Spec
CONSTANTS
  MaxN = 5
  Steps = {1, 2, 4}
  Vals = {0, 1, 5}
  Lins = {0, 1, 3}
INVARIANTS Inv
CHECK_DEADLOCK FALSE
