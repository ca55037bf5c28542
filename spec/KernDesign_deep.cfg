SPECIFICATION Spec
CONSTANTS Slots = {1, 2, 3} Levels = {1, 2} Args = {1, 2} Kinds = {"x", "y"} Random = FALSE MaxOps = 1 Bug = FALSE
INVARIANTS Sound CacheSound ArgsKept
CHECK_DEADLOCK FALSE
