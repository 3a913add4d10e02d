SPECIFICATION Spec
INVARIANTS Resolved Listed
CHECK_DEADLOCK FALSE
CONSTANTS Variant = "first" Cards = 9
