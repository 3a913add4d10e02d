SPECIFICATION Spec
INVARIANTS Same 
CHECK_DEADLOCK FALSE
CONSTANTS Variant = "first" Lines = 7
