SPECIFICATION Spec
CONSTANTS
 N = 1
 NRegs = 2
 L = 2
 Q1 = 3
 MM = 1
 EB = 1
 RB = 1
 KB = 1
 MaxM = 6
 MaxB = 60
 MaxOps = 5
 Random = FALSE
 Bug = "none"
CONSTRAINT Depth
INVARIANTS Tracks Typed
CHECK_DEADLOCK FALSE
