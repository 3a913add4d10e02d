SPECIFICATION Spec
INVARIANTS Asked Complete Reported
CHECK_DEADLOCK FALSE
CONSTANTS Variant = "none" Calls = 2
