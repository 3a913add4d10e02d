CONSTANTS WShort = 2
          WLong = 1
          MaxFields = 5
          MaxCards = 1
          Padded = TRUE
SPECIFICATION Spec
INVARIANTS SameCards Fits
CHECK_DEADLOCK FALSE
