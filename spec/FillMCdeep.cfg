SPECIFICATION Spec
CONSTANTS
  NAN = 2000000000
  Shapes <- Sdeep
  Vals = {0, 1, 4}
  Half <- H
  Iter = 6
  Relax = {2048, 4096, 6144}
INVARIANTS RelaxKeeps RelaxHull RelaxConstant RelaxRotation RelaxHarmonic LoessMean LoessRotation LineKeeps MatrixKeeps
CHECK_DEADLOCK FALSE
