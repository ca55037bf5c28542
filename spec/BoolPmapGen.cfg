SPECIFICATION Spec
CONSTANTS Lanes = 8 Random = TRUE Tts = {0} Batches = 4 NIn = {2, 3}
INVARIANT Replay
CHECK_DEADLOCK FALSE
