SPECIFICATION Spec
INVARIANT Energies
CHECK_DEADLOCK FALSE
CONSTANTS Variant = "ground" Max = 1
