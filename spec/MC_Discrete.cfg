SPECIFICATION Spec
INVARIANT Energies
CHECK_DEADLOCK FALSE
CONSTANTS Variant = "none" Max = 2
