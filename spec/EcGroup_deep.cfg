SPECIFICATION Spec
INVARIANT XAddOk XDblOk EAddOk EDblOk ENegOk Assoc EqualPts
CONSTANTS FP = 17
 TD = 3
CHECK_DEADLOCK FALSE
