CONSTANTS MaxAn = 5
          Wrong = "none"
SPECIFICATION Spec
INVARIANTS Continuous Meets Linear Chained
CHECK_DEADLOCK FALSE
