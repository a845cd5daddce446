SPECIFICATION GSpec
CONSTANTS Depth = 4 NSlots = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
