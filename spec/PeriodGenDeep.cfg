SPECIFICATION GSpec
CONSTANTS Depth = 4 NSlots = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
