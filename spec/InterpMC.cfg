SPECIFICATION Spec
CONSTANT Values = {0, 3}
INVARIANTS Meaning CircleIsInside
CHECK_DEADLOCK FALSE
