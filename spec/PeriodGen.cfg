SPECIFICATION GSpec
CONSTANTS Depth = 3 NSlots = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
