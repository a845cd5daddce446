SPECIFICATION GSpec
CONSTANTS Depth = 4 NSlots = 3 Ops = {"merge", "sum", "copy", "pickle", "resize"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
