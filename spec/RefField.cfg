SPECIFICATION Spec
CONSTANTS
 Ps = {3, 5, 7, 11, 13}
 NRegs = 2
 MaxOps = 0
 Random = FALSE
INVARIANT Exact
CHECK_DEADLOCK FALSE
