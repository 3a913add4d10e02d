CONSTANTS WShort = 8
          WLong = 4
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
