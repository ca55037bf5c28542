SPECIFICATION GenSpec
CONSTANTS S = 2
 Win = 2
 NPts = 2
 Par = 1
 Variants = {"xyzz", "tw", "signed"}
 SkipZero = TRUE
 Random = TRUE
 Shapes = {"zero", "one", "small", "window", "max", "ones", "half", "belowhalf", "carry", "sparse", "same", "rand", "mid"}
 PtKinds = {"new", "dup", "opp", "dbl", "gen"}
CHECK_DEADLOCK FALSE
