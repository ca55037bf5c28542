SPECIFICATION Spec
CONSTANTS
 MaxOps = 4
 MaxParts = 3
 MaxBits = 2
 Random = FALSE
 Bug = "none"
INVARIANTS Once Behind
CHECK_DEADLOCK FALSE
