CONSTANTS Size = 1
          WrongArm = FALSE
          MaxRows = 1
SPECIFICATION Spec
INVARIANTS Canonical Idempotent Laws
CHECK_DEADLOCK FALSE
