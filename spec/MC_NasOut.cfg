SPECIFICATION Spec
INVARIANTS SameModel Distinct AsSpecified
CHECK_DEADLOCK FALSE
CONSTANTS Variant = "none" MaxSets = 2 MaxAns = 2 Items = {1, 2}
