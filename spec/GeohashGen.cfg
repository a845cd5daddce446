SPECIFICATION GSpec
CONSTANT Depth = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
