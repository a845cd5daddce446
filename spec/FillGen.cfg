SPECIFICATION GSpec
CONSTANTS Depth = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
