SPECIFICATION MSpec
CONSTANT MaxBits = 11
INVARIANTS Typed Positions Adjacent Inverse Mutual Children Geometry Covers Texts
CHECK_DEADLOCK FALSE
