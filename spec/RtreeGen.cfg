SPECIFICATION GSpec
CONSTANTS Depth = 4 NSlots = 2 Ops = {"pack", "copy", "pickle", "clear"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
