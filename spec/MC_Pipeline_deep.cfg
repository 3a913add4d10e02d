CONSTANTS MaxCards = 3
          SafeScale = TRUE
          SafeSpc = TRUE
SPECIFICATION Spec
INVARIANTS Preserved
CHECK_DEADLOCK FALSE
