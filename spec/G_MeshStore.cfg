CONSTANTS Mut = "" Len0 = 45
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
