SPECIFICATION Spec
CONSTANTS W = 4 MaxLen = 3
INVARIANT Lossless
CHECK_DEADLOCK FALSE
