SPECIFICATION MSpec
CONSTANT MaxBits = 7
INVARIANTS Typed Positions Adjacent Inverse Mutual Children Geometry Covers Texts
CHECK_DEADLOCK FALSE
