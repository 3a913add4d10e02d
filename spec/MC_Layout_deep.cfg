CONSTANTS WShort = 2
          WLong = 1
          MaxFields = 3
          MaxCards = 2
          Padded = TRUE
SPECIFICATION Spec
INVARIANTS SameCards Fits
CHECK_DEADLOCK FALSE
