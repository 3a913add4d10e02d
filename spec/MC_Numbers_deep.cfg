CONSTANTS Digits = {0, 5}
          NI = 2
          NF = 3
          NE = 2
          Top = 5
          NItems = 2
          Bare = TRUE
SPECIFICATION Spec
INVARIANTS RealOk ListOk
CHECK_DEADLOCK FALSE
