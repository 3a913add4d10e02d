SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Work
INVARIANT Holds
CONSTANT Variant = "no"
