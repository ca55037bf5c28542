SPECIFICATION Spec
INVARIANT MulOk AccOk Folds
CONSTANTS Stride = 5
 Wrap = FALSE
 Lazies = {0, 1, 4}
CHECK_DEADLOCK FALSE
