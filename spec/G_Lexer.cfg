CONSTANTS WShort = 8
          WLong = 4
          NTok = 14
          NLong = 18
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
