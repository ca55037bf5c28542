SPECIFICATION Spec
CONSTANTS
 MaxOps = 3
 MaxParts = 3
 MaxBits = 1
 Random = FALSE
 Bug = "none"
INVARIANTS Once Behind
CHECK_DEADLOCK FALSE
