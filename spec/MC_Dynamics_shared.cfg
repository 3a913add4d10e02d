SPECIFICATION Spec
INVARIANTS Resolved Listed
CHECK_DEADLOCK FALSE
CONSTANTS Variant = "shared" Cards = 7
