CONSTANTS MaxCards = 2 MaxLines = 2 Variant = "EAT"
SPECIFICATION Spec
INVARIANTS Contained Truthful
CHECK_DEADLOCK FALSE
