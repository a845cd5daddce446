SPECIFICATION Spec
INVARIANTS Anchors Identities
CHECK_DEADLOCK FALSE
