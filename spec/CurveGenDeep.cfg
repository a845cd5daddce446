SPECIFICATION GSpec
CONSTANTS
  Depth = 4
  Sizes = {1, 3, 5, 8}
INVARIANT Emit
CHECK_DEADLOCK FALSE
