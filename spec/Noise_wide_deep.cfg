SPECIFICATION Spec
CONSTANTS Preset <- Wide
 Sigmas = 5
 MaxOps = 9
 Keys = 5
INVARIANTS TypeOK NoErrors Bounded
CHECK_DEADLOCK FALSE
