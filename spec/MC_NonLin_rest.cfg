CONSTANTS MaxAn = 3
          Wrong = "rest"
SPECIFICATION Spec
INVARIANTS Continuous Meets Linear Chained
CHECK_DEADLOCK FALSE
