CONSTANTS MaxLines = 5
          Isolated = FALSE
SPECIFICATION Spec
INVARIANT Cases
CHECK_DEADLOCK FALSE
