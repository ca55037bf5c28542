-------------------------------- MODULE EcRns --------------------------------
(***************************************************************************)
(* The residue arithmetic of jaxite_ec at reduced size: words of W = 16,   *)
(* "bytes" of 4, moduli m_i dividing W - t_i, target prime q.  A value x   *)
(* is held as words c_i = x (mod m_i), not necessarily below m_i.          *)
(*  reduce : c -> sum over words and bytes of byte * (factor mod q), minus *)
(*           k * M with the quotient k estimated in fixed point from the   *)
(*           same bytes; the result is again a word vector.                *)
(*  negate : (W - a_i) + ((NegX q - W) mod m_i), a word vector used only   *)
(*           as a term of an accumulation.                                 *)
(* Checked for every value in the domain and every choice of lazily        *)
(* reduced words: congruence modulo q and the bound the next operation     *)
(* needs.  Wrap = TRUE is a negation computed in a W-bit word, which is    *)
(* wrong exactly for a zero word (the model can tell).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Stride, Wrap, Lazies
W == 16
BB == 4
T  == <<0, 1, 3, 5, 2>>
Ms == <<16, 15, 13, 11, 7>>
Nm == 5
M  == 240240
Q  == 3
FIX == 256
MulB == 60                 \* a reduced product is below MulB * q
NegX == 60
XMax == (2 * NegX * Q) * (2 * NegX * Q)
RECURSIVE InvM(_, _, _)
InvM(a, m, i) == IF (a * i) % m = 1 % m THEN i ELSE InvM(a, m, i + 1)
\* CRT factor i times the byte weight b
Fac(i, b) == LET r == M \div Ms[i] IN ((r * InvM(r % Ms[i], Ms[i], 1)) % M * b) % M
FacT == [i \in 1..Nm |-> << Fac(i, 1), Fac(i, BB) >>]
CeilDiv(a, b) == (a + b - 1) \div b
Qe == [i \in 1..Nm |-> [j \in 1..2 |-> CeilDiv(FacT[i][j] * (FIX \div 16), M \div 16)]]
FacQ == [i \in 1..Nm |-> [j \in 1..2 |-> FacT[i][j] % Q]]
Byte(c, j) == IF j = 1 THEN c % BB ELSE c \div BB
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Cor == (-M) % Q
\* as an integer: what the residues of the result denote
ReduceInt(c) ==
  LET s == Sum([i \in 1..Nm |-> Byte(c[i], 1) * FacQ[i][1] + Byte(c[i], 2) * FacQ[i][2]], Nm)
      k == Sum([i \in 1..Nm |-> Byte(c[i], 1) * Qe[i][1] + Byte(c[i], 2) * Qe[i][2]], Nm) \div FIX
  IN s + k * Cor
\* folding a wide word: low + high * t, until it fits
RECURSIVE Fold(_, _)
Fold(v, t) == IF v < W THEN v ELSE Fold((v % W) + (v \div W) * t, t)
\* word of x in limb i under the laziness choice z
Word(x, i, z) ==
  LET r == x % Ms[i]
  IN CASE z = 0 -> r
       [] z = 1 -> LET n == (W - 1 - r) \div Ms[i] IN r + n * Ms[i]
       [] OTHER -> IF z - 1 = i /\ r + Ms[i] < W THEN r + Ms[i] ELSE r
Vec(x, z) == [i \in 1..Nm |-> Word(x, i, z)]
NegW(a, i) == LET sub == (NegX * Q - W) % Ms[i]
                  d == IF Wrap THEN (W - a) % W ELSE W - a
              IN d + sub
VARIABLES x, z, mode
Init == /\ z \in Lazies
        /\ mode \in {"mul", "acc"}
        /\ x = 0
Next == /\ x = 0 /\ UNCHANGED <<z, mode>>
        /\ x' \in (IF mode = "mul" THEN {n \in 0..(XMax - 1) : n % Stride = 0 \/ n > XMax - 64} ELSE 0..(MulB * Q - 1))
Spec == Init /\ [][Next]_<<x, z, mode>>
C == Vec(x, z)
MulOk == mode = "mul" => LET r == ReduceInt(C) IN r % Q = x % Q /\ 0 <= r /\ r < MulB * Q
\* one negated term and one plain term y, for every y
AccOk == mode = "acc" =>
  \A y \in 0..(MulB * Q - 1) :
    LET v == NegX * Q - x + y
    IN \A i \in 1..Nm : LET f == Fold(NegW(C[i], i) + Word(y, i, z), T[i]) IN f < W /\ f % Ms[i] = v % Ms[i]
Folds == \A i \in 1..Nm : (W - T[i]) % Ms[i] = 0
=============================================================================
