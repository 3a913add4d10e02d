SPECIFICATION Spec
CONSTANTS
 Variant = "merge"
 NE = 2
 Offs = {0, 1}
INVARIANT Faithful
CHECK_DEADLOCK FALSE
