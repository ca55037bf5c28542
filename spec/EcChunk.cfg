SPECIFICATION Spec
INVARIANT AddOk SubOk Stops CmpOk CondOk Cond2Ok BarrettOk LazyOk
CONSTANTS B = 4
 Nc = 4
 Primes = {13, 61, 113}
 Headroom = TRUE
CHECK_DEADLOCK FALSE
