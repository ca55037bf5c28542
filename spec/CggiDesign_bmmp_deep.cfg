CONSTANTS
  LogQ = 6
  LogN = 3
  Dim = 2
  MsgBits = 1
  LogB = 2
  Levels = 3
  Bmmp = TRUE
  MaxNoise = 1
  MaskStep = 3
  Luts <- AllLuts
SPECIFICATION Spec
INVARIANTS SwitchedIndex AccPhase ExtractedMsg Refreshed Terminates
CHECK_DEADLOCK FALSE
