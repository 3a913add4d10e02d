CONSTANTS Digits = {0, 5}
          NI = 2
          NF = 2
          NE = 1
          Top = 3
          NItems = 1
          Bare = FALSE
SPECIFICATION Spec
INVARIANTS RealOk ListOk
CHECK_DEADLOCK FALSE
