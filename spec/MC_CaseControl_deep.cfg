CONSTANTS MaxLines = 6
          Isolated = TRUE
SPECIFICATION Spec
INVARIANT Cases
CHECK_DEADLOCK FALSE
