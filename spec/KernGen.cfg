SPECIFICATION Spec
CONSTANTS Slots = {1, 2, 3} Levels = {1, 2, 3} Args = {1, 2} Random = TRUE MaxOps = 18 Bug = FALSE
Kinds = {"ntt", "intt", "bconv", "rescale", "tensor", "relin", "ksw", "conj", "brot", "mux", "addb", "adds", "ptmul", "dec", "enc"}
INVARIANTS Sound
CHECK_DEADLOCK FALSE
