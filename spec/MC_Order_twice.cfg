SPECIFICATION Spec
CONSTANTS Variant = "twice" Big = FALSE
INVARIANT OrderFree
CHECK_DEADLOCK FALSE
