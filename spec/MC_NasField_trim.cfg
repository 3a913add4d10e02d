CONSTANTS
  W = 7
  Ds = {0, 1, 5, 9}
  N = 3
  X = 11
  Wrong = "trim"
SPECIFICATION Spec
INVARIANTS Fits Kept
CHECK_DEADLOCK FALSE
