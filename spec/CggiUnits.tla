------------------------------ MODULE CggiUnits ------------------------------
(* Exhaustive enumeration, on the toy torus, of the unit-level laws the      *)
(* trace specification relies on: encoding, decomposition, modulus switching *)
(* and monomial rotation, for every element, base, level count and exponent. *)
EXTENDS Cggi
CONSTANT PolyDeg
VARIABLES x, lb, L, p
Bases == {b \in 1..LogQ : LogQ % b = 0}
Params == {[tot |-> t, msg |-> g, pad |-> d] : t \in 2..LogQ, g \in 1..3, d \in 0..2}
P0 == [tot |-> LogQ, msg |-> 1, pad |-> 1]
Init == /\ x \in 0..(Q - 1)
        /\ \/ lb \in Bases /\ L \in 1..(LogQ \div lb) /\ p = P0
           \/ lb = LogQ /\ L = 1 /\ p \in {r \in Params : r.msg + r.pad <= r.tot}
Next == UNCHANGED <<x, lb, L, p>>
Spec == Init /\ [][Next]_<<x, lb, L, p>>
DigitsOk == p = P0 => LET d == SDigits(x, lb, L)  B == 2^lb
            IN /\ \A i \in 1..L : 2 * d[i] >= -B /\ 2 * d[i] < B
               /\ Within(TSub(x, Recompose(d, lb)), DropBound(lb, L))
               /\ (L * lb = LogQ) => Recompose(d, lb) = x
UDigitsOk == p = P0 => Recompose(UDigits(x, lb, L, LogQ), lb) = (x \div 2^(LogQ - L * lb)) * 2^(LogQ - L * lb)
EncodeOkInv == \A m \in 0..(2^p.msg - 1) :
   LET h == 2^ErrBits(p)
   IN \A e \in {0, 1, -1, (h \div 2) - 1, 1 - (h \div 2)} :
        (2 * e < h /\ -2 * e < h) =>
           /\ Decode(TNorm(Encode(m, p) + e), p) = m
           /\ Noise(TNorm(Encode(m, p) + e), p) = e
RoundOk == LET r == RemoveNoise(x, p)  h == 2^ErrBits(p)
           IN r % h = 0 /\ 2 * Noise(x, p) < h /\ 2 * Noise(x, p) >= -h
Poly == [i \in 1..PolyDeg |-> (x * i * i + 3 * i) % Q]
XPow(k) == [i \in 1..PolyDeg |-> IF i = k + 1 THEN 1 ELSE 0]
MonoOk == (lb = LogQ /\ p = P0) =>
          /\ \A k \in 0..(PolyDeg - 1) : PMono(Poly, k) = PMul(Poly, XPow(k))
          /\ \A k \in -(2 * PolyDeg)..(2 * PolyDeg) :
               /\ PMono(PMono(Poly, k), -k) = Poly
               /\ PMono(Poly, k + 2 * PolyDeg) = PMono(Poly, k)
               /\ PMono(Poly, k + PolyDeg) = [i \in 1..PolyDeg |-> TNeg(PMono(Poly, k)[i])]
ModSwitchOk == (lb = LogQ /\ p = P0) => \A out \in 1..(LogQ - 1) :
   LET st == 2^(LogQ - out)  d == (ModSwitch1(x, out) * st - x)
   IN LET c == Cent(TNorm(d)) IN 2 * c <= st /\ 2 * c >= -st
=============================================================================
