CONSTANT NAn = 2
CONSTANT Nodes = {1, 2, 3}
CONSTANT CSets = {1, 2}
CONSTANT LSets = {1, 2}
CONSTANT Bug = "count"
SPECIFICATION Spec
INVARIANT Faithful
INVARIANT Closed
INVARIANT Merged
CHECK_DEADLOCK FALSE
