SPECIFICATION Spec
CONSTANTS Variant = "eager" Big = FALSE
INVARIANT OrderFree
CHECK_DEADLOCK FALSE
