SPECIFICATION Spec
INVARIANTS Asked Complete Reported
CHECK_DEADLOCK FALSE
CONSTANTS Variant = "mask" Calls = 1
