CONSTANTS
  W = 8
  Ds = {0, 1, 4, 5, 9}
  N = 5
  X = 13
  Wrong = "none"
SPECIFICATION Spec
INVARIANTS Fits Kept
CHECK_DEADLOCK FALSE
