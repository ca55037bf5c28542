SPECIFICATION Spec
CONSTANTS
 Ps = {3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 61, 67}
 NRegs = 2
 MaxOps = 0
 Random = FALSE
INVARIANT Exact
CHECK_DEADLOCK FALSE
