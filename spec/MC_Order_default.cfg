SPECIFICATION Spec
CONSTANTS Variant = "default" Big = FALSE
INVARIANT OrderFree
CHECK_DEADLOCK FALSE
