SPECIFICATION Spec
INVARIANT Energies
CHECK_DEADLOCK FALSE
CONSTANTS Variant = "twice" Max = 1
