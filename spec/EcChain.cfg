SPECIFICATION Spec
INVARIANT RoomOk TermsOk
CONSTANTS Regs = {1, 2, 3}
 Random = FALSE
 MaxOps = 1
 MaxTerms = 4
 Pats = {0}
CHECK_DEADLOCK FALSE
