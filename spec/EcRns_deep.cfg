SPECIFICATION Spec
INVARIANT MulOk AccOk Folds
CONSTANTS Stride = 1
 Wrap = FALSE
 Lazies = {0, 1, 2, 3, 4, 5, 6}
CHECK_DEADLOCK FALSE
