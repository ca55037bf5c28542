SPECIFICATION Spec
CONSTANTS Preset <- TestSet
 Sigmas = 5
 MaxOps = 9
 Keys = 5
INVARIANTS TypeOK NoErrors Bounded
CHECK_DEADLOCK FALSE
