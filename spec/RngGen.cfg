SPECIFICATION Spec
CONSTANTS MaxCalls = 24 Random = TRUE Kinds = {"u", "n", "s"} Shapes <- GShapes
 
INVARIANTS Regroup NoRestart
CHECK_DEADLOCK FALSE
