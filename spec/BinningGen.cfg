SPECIFICATION GSpec
CONSTANTS Depth = 4 NSlots = 2 Ops = {"merge", "sum", "copy", "pickle", "clear"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
