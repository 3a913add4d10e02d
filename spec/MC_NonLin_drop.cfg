CONSTANTS MaxAn = 3
          Wrong = "drop"
SPECIFICATION Spec
INVARIANTS Continuous Meets Linear Chained
CHECK_DEADLOCK FALSE
