SPECIFICATION Spec
CONSTANTS
 MaxOps = 5 Sessions = 1 Random = FALSE
 T2 = {6, 8} T3 = {8, 150} BadTts = {4}
 Fresh = 1 Boot = 2 SwitchErr = 1 Half = 16 Batch = 0
 Ops = {"constant", "encrypt", "not", "and", "xor", "orny", "lut1", "lut2", "lut3", "cmux"}
INVARIANTS NoiseBudget Refreshed CacheTransparent
VIEW View
CHECK_DEADLOCK FALSE
