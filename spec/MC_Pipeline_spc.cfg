CONSTANTS MaxCards = 2
          SafeScale = TRUE
          SafeSpc = FALSE
SPECIFICATION Spec
INVARIANTS Preserved
CHECK_DEADLOCK FALSE
