SPECIFICATION Spec
INVARIANTS Same 
CHECK_DEADLOCK FALSE
CONSTANTS Variant = "lost" Lines = 7
