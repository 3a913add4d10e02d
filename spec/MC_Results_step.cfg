SPECIFICATION Spec
INVARIANTS Same 
CHECK_DEADLOCK FALSE
CONSTANTS Variant = "step" Lines = 7
