SPECIFICATION Spec
INVARIANT XAddOk XDblOk EAddOk EDblOk ENegOk Assoc EqualPts
CONSTANTS FP = 13
 TD = 2
CHECK_DEADLOCK FALSE
