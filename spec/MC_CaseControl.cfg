CONSTANTS MaxLines = 5
          Isolated = TRUE
SPECIFICATION Spec
INVARIANT Cases
CHECK_DEADLOCK FALSE
