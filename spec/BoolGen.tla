------------------------------ MODULE BoolGen ------------------------------
EXTENDS BoolDesign
AllT2 == 0..15
AllT3 == 0..255
SomeBad == {-1, 4, 7, 256}
AllOps == Gates2 \cup {"constant", "encrypt", "not", "lut1", "lut2", "lut3", "cmux"}
GenNext == (Len(hist) < MaxOps /\ Next) \/ Emit
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
