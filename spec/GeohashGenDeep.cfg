SPECIFICATION GSpec
CONSTANT Depth = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
