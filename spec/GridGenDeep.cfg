SPECIFICATION GSpec
CONSTANT Depth = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
