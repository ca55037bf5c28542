SPECIFICATION Spec
CONSTANTS Preset <- Wide
 Sigmas = 5
 MaxOps = 6
 Keys = 3
INVARIANTS TypeOK NoErrors Bounded
CHECK_DEADLOCK FALSE
