CONSTANTS MaxCards = 2 MaxLines = 2 Variant = "EARLY"
SPECIFICATION Spec
INVARIANTS Contained Truthful
CHECK_DEADLOCK FALSE
