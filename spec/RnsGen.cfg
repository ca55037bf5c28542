SPECIFICATION Spec
CONSTANTS Slots = {1, 2, 3, 4} Worlds = {1, 2} Random = TRUE MaxOps = 40 Full = FALSE
INVARIANTS Faithful Canonical
CHECK_DEADLOCK FALSE
