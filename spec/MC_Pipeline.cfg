CONSTANTS MaxCards = 2
          SafeScale = TRUE
          SafeSpc = TRUE
SPECIFICATION Spec
INVARIANTS Preserved Commute
CHECK_DEADLOCK FALSE
