SPECIFICATION Spec
CONSTANTS
 MaxN = 80
 MaxB = 84
 Random = FALSE
 Bug = "none"
INVARIANTS AtEnd InOrder
CHECK_DEADLOCK FALSE
