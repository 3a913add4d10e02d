SPECIFICATION Spec
INVARIANTS Asked Complete Reported
CHECK_DEADLOCK FALSE
CONSTANTS Variant = "eager" Calls = 1
