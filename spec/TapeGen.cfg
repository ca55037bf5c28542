SPECIFICATION Spec
CONSTANTS
 MaxOps = 7
 MaxParts = 3
 MaxBits = 2
 Random = TRUE
 Bug = "none"
CHECK_DEADLOCK FALSE
