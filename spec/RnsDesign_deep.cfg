SPECIFICATION Spec
CONSTANTS Slots = {1, 2} Worlds = {1, 3} Random = FALSE MaxOps = 1 Full = TRUE
INVARIANTS Faithful Canonical
PROPERTY Frame
CHECK_DEADLOCK FALSE
