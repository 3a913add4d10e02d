SPECIFICATION Spec
CONSTANTS Variant = "" Big = TRUE
INVARIANT OrderFree
CHECK_DEADLOCK FALSE
