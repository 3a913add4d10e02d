CONSTANTS Size = 2
          WrongArm = FALSE
          MaxRows = 2
SPECIFICATION Spec
INVARIANTS Canonical Idempotent Laws
CHECK_DEADLOCK FALSE
