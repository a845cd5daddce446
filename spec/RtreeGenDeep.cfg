SPECIFICATION GSpec
CONSTANTS Depth = 6 NSlots = 2 Ops = {"pack", "copy", "pickle", "clear"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
