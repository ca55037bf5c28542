SPECIFICATION Spec
CONSTANTS
 Caches = {1}
 Arities = {1, 2, 3}
 Tables = {0, 1, 2, 3, 6, 8, 9, 14, 15, 150}
 MaxOps = 1
 Random = FALSE
 Bug = "none"
CONSTRAINT Small
INVARIANTS Transparent RoundTrip
CHECK_DEADLOCK FALSE
