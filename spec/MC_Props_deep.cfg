SPECIFICATION Spec
CONSTANTS
 Variant = "none"
 NE = 3
 Offs = {0, 1}
INVARIANT Faithful
CHECK_DEADLOCK FALSE
