SPECIFICATION Spec
CONSTANTS W = 8 MaxLen = 2
INVARIANT Lossless
CHECK_DEADLOCK FALSE
