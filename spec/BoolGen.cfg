SPECIFICATION GenSpec
CONSTANTS
 MaxOps = 60 Sessions = 2 Random = TRUE
 T2 <- AllT2 T3 <- AllT3 BadTts <- SomeBad Ops <- AllOps
 Fresh = 1 Boot = 2 SwitchErr = 1 Half = 16 Batch = 0
INVARIANTS NoiseBudget Refreshed CacheTransparent
CHECK_DEADLOCK FALSE
