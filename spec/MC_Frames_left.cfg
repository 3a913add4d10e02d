SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Rigid
INVARIANT OnAxes
INVARIANT Distance
CONSTANT Variant = "left"
CONSTANT Depth = 2
