SPECIFICATION Spec
CONSTANTS Lanes = 2 Random = FALSE Tts = {6, 13} Batches = 2 NIn = {2}
INVARIANT Replay
CHECK_DEADLOCK FALSE
