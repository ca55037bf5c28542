SPECIFICATION Spec
CONSTANTS
 N = 1
 NRegs = 4
 L = 3
 Q1 = 3
 MM = 1
 EB = 1
 RB = 1
 KB = 1
 MaxM = 6
 MaxB = 60
 MaxOps = 20
 Random = TRUE
 Bug = "none"
CHECK_DEADLOCK FALSE
