SPECIFICATION Spec
CONSTANTS
 Caches = {1, 2}
 Arities = {1, 2, 3}
 Tables = {0, 3, 8, 150}
 MaxOps = 1
 Random = FALSE
 Bug = "none"
CONSTRAINT Small
INVARIANTS Transparent RoundTrip
CHECK_DEADLOCK FALSE
