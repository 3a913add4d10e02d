SPECIFICATION Spec
INVARIANT Energies
CHECK_DEADLOCK FALSE
CONSTANTS Variant = "arm" Max = 1
