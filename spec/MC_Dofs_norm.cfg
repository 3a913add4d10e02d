CONSTANTS N = 2
 Vals = {0, 1}
 Depth = 2
 Norm = FALSE
 Xor = FALSE
SPECIFICATION Spec
INVARIANTS SetsAgree TableAgrees Typed Consistent
CHECK_DEADLOCK FALSE
