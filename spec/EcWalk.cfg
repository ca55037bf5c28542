SPECIFICATION Spec
INVARIANT Defined
CONSTANTS Regs = {1, 2, 3}
 K = 12
 Complete = FALSE
 Random = FALSE
 MaxOps = 1
 Loads = {1, 2, 3}
CHECK_DEADLOCK FALSE
