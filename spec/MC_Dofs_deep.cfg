CONSTANTS N = 3
 Vals = {0, 2}
 Depth = 3
 Norm = TRUE
 Xor = FALSE
SPECIFICATION Spec
INVARIANTS SetsAgree TableAgrees Typed Consistent
CHECK_DEADLOCK FALSE
