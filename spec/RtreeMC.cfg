SPECIFICATION MSpec
CONSTANTS
  Depth = 3
  Points <- Three3
  Ks = {0, 1, 2, 3}
INVARIANTS Holds Queries Distances Bounded
CHECK_DEADLOCK FALSE
