CONSTANTS MaxAn = 3
          Wrong = "all"
SPECIFICATION Spec
INVARIANTS Continuous Meets Linear Chained
CHECK_DEADLOCK FALSE
