SPECIFICATION Spec
CONSTANT Values = {0, 3, 2000000000}
INVARIANTS Meaning CircleIsInside
CHECK_DEADLOCK FALSE
