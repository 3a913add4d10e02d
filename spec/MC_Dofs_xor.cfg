CONSTANTS N = 3
 Vals = {0}
 Depth = 1
 Norm = TRUE
 Xor = TRUE
SPECIFICATION Spec
INVARIANTS SetsAgree TableAgrees Typed Consistent
CHECK_DEADLOCK FALSE
