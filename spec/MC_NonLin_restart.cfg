CONSTANTS MaxAn = 3
          Wrong = "restart"
SPECIFICATION Spec
INVARIANTS Continuous Meets Linear Chained
CHECK_DEADLOCK FALSE
