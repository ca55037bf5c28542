SPECIFICATION Spec
INVARIANT BucketsOk WindowsOk ResultOk
CONSTANTS S = 2
 Win = 2
 NPts = 3
 Par = 1
 Variants = {"xyzz", "tw", "signed"}
 SkipZero = TRUE
 Random = FALSE
 Shapes = {"x"}
 PtKinds = {"x"}
CHECK_DEADLOCK FALSE
