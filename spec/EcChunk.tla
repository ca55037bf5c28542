------------------------------- MODULE EcChunk -------------------------------
(***************************************************************************)
(* Chunked big-integer arithmetic at reduced size: numbers of Nc chunks in *)
(* base B, computed in words of B*B, as jaxite_ec computes 24 chunks of    *)
(* 16 bits in 32-bit words.                                                *)
(*  Carry  : split every chunk, roll the high halves by one, add, until no *)
(*           chunk overflows (the top half wraps round to chunk 1).        *)
(*  Sub    : borrow in advance (B in every chunk but the top one, 1 taken  *)
(*           from chunks 2..Nc-1), carry, then take 1 from the top chunk.  *)
(*  Cmp    : sum of sign(a_i - b_i) * 2^(i-1).                             *)
(*  Barrett: q = (x * mu) / 2^k, x - q p, one conditional subtraction.     *)
(*  Lazy   : low bytes + high bytes * (byte weight mod p).                 *)
(* All operands (a, b) are enumerated, also outside the domain a >= b of   *)
(* the subtraction, where only termination of the carry loop is required   *)
(* (its result is computed and discarded by the conditional subtraction).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS B, Nc, Primes, Headroom
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Cap == Pow(B, Nc)
WW == B * B
Ch(x) == [i \in 1..Nc |-> (x \div Pow(B, i - 1)) % B]
RECURSIVE ValN(_, _)
ValN(c, n) == IF n = 0 THEN 0 ELSE c[n] * Pow(B, n - 1) + ValN(c, n - 1)
Val(c) == ValN(c, Nc)
Over(c) == \E i \in 1..Nc : c[i] >= B
Roll(c) == [i \in 1..Nc |-> (c[i] % B) + (IF i = 1 THEN c[Nc] \div B ELSE c[i - 1] \div B)]
RECURSIVE Carry(_, _)
Carry(c, fuel) == IF ~Over(c) \/ fuel = 0 THEN c ELSE Carry(Roll(c), fuel - 1)
Fuel == 4 * Nc
Word(x) == x % WW
Add(x, y) == Carry([i \in 1..Nc |-> Ch(x)[i] + Ch(y)[i]], Fuel)
Pre(x, y) == [i \in 1..Nc |-> Word(Ch(x)[i] + (IF i < Nc THEN B ELSE 0) - Ch(y)[i] - (IF i > 1 /\ i < Nc THEN 1 ELSE 0))]
SubC(x, y) == Carry(Pre(x, y), Fuel)
Sub(x, y) == LET c == SubC(x, y) IN [c EXCEPT ![Nc] = Word(@ - 1) % B]
Sign(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
RECURSIVE CmpN(_, _, _)
CmpN(x, y, n) == IF n = 0 THEN 0 ELSE Sign(Ch(x)[n] - Ch(y)[n]) * Pow(2, n - 1) + CmpN(x, y, n - 1)
Cmp(x, y) == CmpN(x, y, Nc)
CondSub(x, m) == IF Cmp(x, m) >= 0 THEN Val(Sub(x, m)) ELSE x

VARIABLES a, b
Init == a \in 0..(Cap - 1) /\ b = 0
Next == b = 0 /\ a' = a /\ b' \in 1..(Cap - 1)
Spec == Init /\ [][Next]_<<a, b>>
Top == IF Headroom THEN (B - 1) * Pow(B, Nc - 1) ELSE Cap
AddOk == a + b < Cap => LET c == Add(a, b) IN ~Over(c) /\ Val(c) = a + b
SubOk == (b <= a /\ a < Top) => LET c == Sub(a, b) IN ~Over(c) /\ Val(c) = a - b
Stops == ~Over(SubC(a, b))
CmpOk == Sign(Cmp(a, b)) = Sign(a - b)
\* conditional subtraction of a modulus b whose top chunk is not zero
CondOk == (b > 0 /\ Ch(b)[Nc] > 0) => CondSub(a, b) = IF a >= b THEN a - b ELSE a
\* cond_sub_2: (a - b) mod m for a, b <= m, with a + m not carried beforehand
Raw(x, m) == [i \in 1..Nc |-> Ch(x)[i] + Ch(m)[i]]
Pre2(c, y) == [i \in 1..Nc |-> Word(c[i] + (IF i < Nc THEN B ELSE 0) - Ch(y)[i] - (IF i > 1 /\ i < Nc THEN 1 ELSE 0))]
Sub2(c, y) == LET r == Carry(Pre2(c, y), Fuel) IN [r EXCEPT ![Nc] = Word(@ - 1) % B]
Cond2Ok == \A m \in Primes : (a <= m /\ b <= m /\ 2 * m < Top) =>
             Val(IF Cmp(a, b) >= 0 THEN Sub(a, b) ELSE Sub2(Raw(a, m), b)) = IF a >= b THEN a - b ELSE a + m - b
\* Barrett with one conditional subtraction; 
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
X == a + Cap * b          \* the pair read as one double-length number
BarrettOk == \A p \in Primes : X < p * p =>
  LET k == 2 * Bits(p)
      mu == Pow(2, k) \div p
      q == (X * mu) \div Pow(2, k)
      r == X - q * p
  IN r >= 0 /\ r < 2 * p /\ (IF r >= p THEN r - p ELSE r) = X % p
RECURSIVE ValHigh(_, _, _)
ValHigh(h, p, j) == IF h = 0 THEN 0 ELSE (h % B) * (Pow(B, j) % p) + ValHigh(h \div B, p, j + 1)
\* lazy reduction with K low bytes in base B and bound p * B * B
LazyOk == \A p \in Primes :
  LET K == 3
      lo == X % Pow(B, K)
      c == lo + ValHigh(X \div Pow(B, K), p, K)
  IN (Pow(B, K) >= p /\ Pow(B, K) <= p + B) => c % p = X % p /\ (X < Pow(B, 8) => c < p * B * B)
=============================================================================
