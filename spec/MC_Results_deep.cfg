SPECIFICATION Spec
INVARIANTS Same 
CHECK_DEADLOCK FALSE
CONSTANTS Variant = "none" Lines = 9
