SPECIFICATION Spec
CONSTANTS
 N = 1
 NRegs = 2
 L = 2
 Q1 = 37
 MM = 20
 EB = 1
 RB = 1
 KB = 1
 MaxM = 20
 MaxB = 60
 MaxOps = 1
 Random = FALSE
 Bug = "none"
CONSTRAINT Depth
INVARIANTS Tracks Typed
CHECK_DEADLOCK FALSE
