SPECIFICATION Spec
CONSTANTS MaxCalls = 4 Random = FALSE Kinds = {"u", "n", "s"} Shapes <- DShapes
 
INVARIANTS Regroup NoRestart
CHECK_DEADLOCK FALSE
