SPECIFICATION Spec
INVARIANTS Resolved Listed
CHECK_DEADLOCK FALSE
CONSTANTS Variant = "order" Cards = 7
