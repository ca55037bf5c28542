SPECIFICATION Spec
CONSTANTS Regs = {1, 2, 3, 4}
 K = 500
 Complete = TRUE
 Random = TRUE
 MaxOps = 12
 Loads = {0, 1, 2, 3}
CHECK_DEADLOCK FALSE
