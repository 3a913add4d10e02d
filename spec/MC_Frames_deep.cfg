SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Rigid
INVARIANT OnAxes
INVARIANT Distance
CONSTANT Variant = "no"
CONSTANT Depth = 3
