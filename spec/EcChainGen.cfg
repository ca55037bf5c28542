SPECIFICATION Spec
CONSTANTS Regs = {1, 2, 3, 4, 5}
 Random = TRUE
 MaxOps = 24
 MaxTerms = 4
 Pats = {0, 1, 2, 3, 4, 5, 6, 7}
CHECK_DEADLOCK FALSE
