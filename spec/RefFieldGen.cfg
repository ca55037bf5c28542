SPECIFICATION Spec
CONSTANTS
 Ps = {7}
 NRegs = 4
 MaxOps = 24
 Random = TRUE
CHECK_DEADLOCK FALSE
