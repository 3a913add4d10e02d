SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Rigid
INVARIANT OnAxes
INVARIANT Distance
CONSTANT Variant = "chain"
CONSTANT Depth = 2
