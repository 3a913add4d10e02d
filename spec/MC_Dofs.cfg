CONSTANTS N = 2
 Vals = {0, 1, 2}
 Depth = 3
 Norm = TRUE
 Xor = FALSE
SPECIFICATION Spec
INVARIANTS SetsAgree TableAgrees Typed Consistent
CHECK_DEADLOCK FALSE
