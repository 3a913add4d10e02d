SPECIFICATION Spec
INVARIANTS Asked Complete Reported
CHECK_DEADLOCK FALSE
CONSTANTS Variant = "override" Calls = 1
