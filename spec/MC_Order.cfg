SPECIFICATION Spec
CONSTANTS Variant = "" Big = FALSE
INVARIANT OrderFree
CHECK_DEADLOCK FALSE
