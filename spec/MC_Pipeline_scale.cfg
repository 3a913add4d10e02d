CONSTANTS MaxCards = 2
          SafeScale = FALSE
          SafeSpc = TRUE
SPECIFICATION Spec
INVARIANTS Preserved
CHECK_DEADLOCK FALSE
