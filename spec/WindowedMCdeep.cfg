SPECIFICATION Spec
CONSTANTS
  Kind0 = {"linear", "bicubic", "polynomial", "akima", "steffen", "c_spline_periodic"}
  Sizes = {1, 2, 3, 4}
  XPos <- PosDeep
  YPos = {0, 12, 16, 20, 31, 48}
INVARIANTS Increasing Reproduces Constants0 NodeValue Local SomeResult
CHECK_DEADLOCK FALSE
