SPECIFICATION Spec
CONSTANTS Before = 5000 To = 12000
INVARIANTS Agrees Anchors Periodic
CHECK_DEADLOCK FALSE
