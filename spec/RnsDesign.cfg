SPECIFICATION Spec
CONSTANTS Slots = {1, 2} Worlds = {1, 2} Random = FALSE MaxOps = 1 Full = TRUE
INVARIANTS Faithful Canonical
PROPERTY Frame
CHECK_DEADLOCK FALSE
