SPECIFICATION Spec
CONSTANTS Regs = {1, 2, 3, 4}
 K = 500
 Complete = FALSE
 Random = TRUE
 MaxOps = 12
 Loads = {1, 2, 3, 5, 6}
CHECK_DEADLOCK FALSE
