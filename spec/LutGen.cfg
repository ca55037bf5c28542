SPECIFICATION Spec
CONSTANTS
 Caches = {1, 2}
 Arities = {1, 2, 3}
 Tables = {0, 1, 2, 3, 6, 8, 9, 14, 15, 150}
 MaxOps = 24
 Random = TRUE
 Bug = "none"
CHECK_DEADLOCK FALSE
