CONSTANTS
  LogQ = 8
  PolyDeg = 4
SPECIFICATION Spec
INVARIANTS DigitsOk UDigitsOk EncodeOkInv RoundOk MonoOk ModSwitchOk
CHECK_DEADLOCK FALSE
