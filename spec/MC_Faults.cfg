CONSTANTS MaxCards = 3 MaxLines = 3 Variant = "OK"
SPECIFICATION Spec
INVARIANTS Contained Truthful
PROPERTY Ends
CHECK_DEADLOCK FALSE
