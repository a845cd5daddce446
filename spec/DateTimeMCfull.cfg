SPECIFICATION Spec
CONSTANTS Before = 719162 To = 0
INVARIANTS Agrees Anchors Periodic
CHECK_DEADLOCK FALSE
