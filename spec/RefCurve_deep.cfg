SPECIFICATION Spec
CONSTANTS
 Primes = {5, 7, 11}
 Systems = {"aff", "proj", "xyzz"}
 WithTorsion = FALSE
INVARIANTS AddRight DblRight
CHECK_DEADLOCK FALSE
