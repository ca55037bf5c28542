SPECIFICATION Spec
CONSTANTS
 MaxN = 24
 MaxB = 12
 Random = FALSE
 Bug = "none"
INVARIANTS AtEnd InOrder
CHECK_DEADLOCK FALSE
