CONSTANT Len0 = 30
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
