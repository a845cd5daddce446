SPECIFICATION Spec
CONSTANTS
  Kind0 = {"linear", "bicubic", "polynomial", "akima", "steffen", "c_spline_periodic"}
  Sizes = {1, 3}
  XPos <- QuickX
  YPos = {16, 31}
INVARIANTS Increasing Reproduces Constants0 NodeValue Local SomeResult
CHECK_DEADLOCK FALSE
