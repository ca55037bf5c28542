SPECIFICATION Spec
INVARIANT AddOk SubOk Stops CmpOk CondOk Cond2Ok BarrettOk LazyOk
CONSTANTS B = 3
 Nc = 6
 Primes = {13, 89, 107}
 Headroom = TRUE
CHECK_DEADLOCK FALSE
