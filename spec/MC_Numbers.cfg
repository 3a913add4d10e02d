CONSTANTS Digits = {0, 5}
          NI = 2
          NF = 2
          NE = 2
          Top = 4
          NItems = 2
          Bare = TRUE
SPECIFICATION Spec
INVARIANTS RealOk ListOk
CHECK_DEADLOCK FALSE
