SPECIFICATION Spec
CONSTANTS
 MaxN = 7
 MaxB = 5
 Random = TRUE
 Bug = "none"
CHECK_DEADLOCK FALSE
