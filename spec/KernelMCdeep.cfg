SPECIFICATION Spec
CONSTANTS
  Vals <- V3
  Bases = {"linear", "cubic", "multiquadric", "gaussian", "matern_32", "spherical", "linear_cov"}
INVARIANTS Inv
CHECK_DEADLOCK FALSE
