SPECIFICATION GSpec
CONSTANTS Depth = 5 NSlots = 3 Ops = {"merge", "sum", "copy", "pickle"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
