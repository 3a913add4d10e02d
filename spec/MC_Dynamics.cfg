SPECIFICATION Spec
INVARIANTS Resolved Listed
CHECK_DEADLOCK FALSE
CONSTANTS Variant = "none" Cards = 9
