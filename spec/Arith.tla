------------------------------- MODULE Arith -------------------------------
(***************************************************************************)
(* Exact integer arithmetic for the jaxite specifications.                 *)
(*                                                                         *)
(* TLA+ integers are unbounded, TLC's are 32 bits wide.  Every operator    *)
(* below has its mathematical definition here; Arith.java overrides the    *)
(* same operators with java.math.BigInteger / 64-bit versions so that TLC  *)
(* can evaluate them on the 32-bit, 64-bit and 377-bit numbers the         *)
(* implementation computes with.  ArithSelfTest.tla compares each override *)
(* with its definition (the *Def twins, which are never overridden).       *)
(*                                                                         *)
(* Two number representations are used:                                    *)
(*   - a TLC integer, for anything in -2^31 .. 2^31-1;                     *)
(*   - a "Z numeral", a string of decimal digits with an optional leading  *)
(*     minus sign, for anything larger.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(f) == {f[x] : x \in DOMAIN f}

(***************************************************************************)
(* 1. Z numerals                                                           *)
(***************************************************************************)
Digit(c) == CHOOSE d \in 0..9 : ToString(d) = c

RECURSIVE ValNat(_)
ValNat(s) == IF s = "" THEN 0
             ELSE 10 * ValNat(SubSeq(s, 1, Len(s) - 1))
                  + Digit(SubSeq(s, Len(s), Len(s)))
\* the integer a numeral denotes, and the numeral of an integer
Val(s) == IF SubSeq(s, 1, 1) = "-" THEN -ValNat(SubSeq(s, 2, Len(s)))
                                   ELSE ValNat(s)
Rep(n) == ToString(n)

AbsI(n) == IF n < 0 THEN -n ELSE n

ZAddDef(a, b) == Rep(Val(a) + Val(b))
ZSubDef(a, b) == Rep(Val(a) - Val(b))
ZMulDef(a, b) == Rep(Val(a) * Val(b))
ZDivDef(a, b) == Rep(Val(a) \div Val(b))       \* floor division, b > 0
ZModDef(a, b) == Rep(Val(a) % Val(b))          \* in 0..b-1, b > 0
ZCmpDef(a, b) == IF Val(a) < Val(b) THEN -1 ELSE IF Val(a) = Val(b) THEN 0 ELSE 1
ZPow2Def(k)   == Rep(2^k)
RECURSIVE PowModI(_, _, _)
PowModI(b, e, m) == IF e = 0 THEN 1 % m
                    ELSE LET h == PowModI(b, e \div 2, m)
                             s == (h * h) % m
                         IN IF e % 2 = 1 THEN (s * b) % m ELSE s
ZPowModDef(b, e, m) == Rep(PowModI(Val(b) % Val(m), Val(e), Val(m)))
\* modular inverse; "0" when none exists
ZInvModDef(a, m) ==
  LET S == {x \in 0..(Val(m) - 1) : (x * Val(a)) % Val(m) = 1 % Val(m)}
  IN IF S = {} THEN "0" ELSE Rep(CHOOSE x \in S : TRUE)

ZAdd(a, b) == ZAddDef(a, b)
ZSub(a, b) == ZSubDef(a, b)
ZMul(a, b) == ZMulDef(a, b)
ZDiv(a, b) == ZDivDef(a, b)
ZMod(a, b) == ZModDef(a, b)
ZCmp(a, b) == ZCmpDef(a, b)
ZPow2(k)   == ZPow2Def(k)
ZPowMod(b, e, m) == ZPowModDef(b, e, m)
ZInvMod(a, m) == ZInvModDef(a, m)
ZOf(n)     == Rep(n)                     \* integer -> numeral
ZInt(s)    == Val(s)                     \* numeral -> integer (must fit)

ZLt(a, b) == ZCmp(a, b) < 0
ZLe(a, b) == ZCmp(a, b) <= 0
ZNeg(a)   == ZSub("0", a)
ZAbs(a)   == IF ZLt(a, "0") THEN ZNeg(a) ELSE a
ZAddMod(a, b, m) == ZMod(ZAdd(a, b), m)
ZSubMod(a, b, m) == ZMod(ZSub(a, b), m)
ZMulMod(a, b, m) == ZMod(ZMul(a, b), m)
ZBit(a, k) == ZInt(ZMod(ZDiv(a, ZPow2(k)), "2"))
ZDigit(a, lo, w) == ZInt(ZMod(ZDiv(a, ZPow2(lo)), ZPow2(w)))  \* w-bit field at bit lo
\* representative of a mod m in [-m/2, m/2)
ZCenter(a, m) == LET r == ZMod(a, m)
                 IN IF ZLe(m, ZMul("2", r)) THEN ZSub(r, m) ELSE r

RECURSIVE ZSumSeq(_)
ZSumSeq(s) == IF Len(s) = 0 THEN "0"
              ELSE IF Len(s) = 1 THEN s[1]
              ELSE LET h == Len(s) \div 2
                   IN ZAdd(ZSumSeq(SubSeq(s, 1, h)), ZSumSeq(SubSeq(s, h + 1, Len(s))))
RECURSIVE ZProdSeq(_)
ZProdSeq(s) == IF Len(s) = 0 THEN "1"
               ELSE ZMul(Head(s), ZProdSeq(Tail(s)))

(***************************************************************************)
(* 2. residues modulo q < 2^31 held as TLC integers                        *)
(***************************************************************************)
AddModDef(a, b, q) == (a + b) % q
SubModDef(a, b, q) == (a - b) % q
MulModDef(a, b, q) == (a * b) % q
AddMod(a, b, q) == AddModDef(a, b, q)
SubMod(a, b, q) == SubModDef(a, b, q)
MulMod(a, b, q) == MulModDef(a, b, q)
RECURSIVE PowModDef(_, _, _)
PowModDef(b, e, q) == IF e = 0 THEN 1 % q
                      ELSE LET h == PowModDef(b, e \div 2, q)
                               s == MulModDef(h, h, q)
                           IN IF e % 2 = 1 THEN MulModDef(s, b % q, q) ELSE s
PowMod(b, e, q) == PowModDef(b, e, q)

(***************************************************************************)
(* 3. the discretised torus Z/2^32, held as the signed integer             *)
(*    -2^31 .. 2^31-1 congruent to the element                             *)
(***************************************************************************)
\* wrap a numeral into the signed 32-bit representative
ZWrapDef(a) == ZSubDef(ZModDef(ZAddDef(a, ZPow2Def(31)), ZPow2Def(32)), ZPow2Def(31))
ZWrap(a)    == ZWrapDef(a)
WAdd(a, b) == ZInt(ZWrap(ZAdd(ZOf(a), ZOf(b))))
WSub(a, b) == ZInt(ZWrap(ZSub(ZOf(a), ZOf(b))))
WMul(a, b) == ZInt(ZWrap(ZMul(ZOf(a), ZOf(b))))
WNeg(a)    == WSub(0, a)
\* signed 32-bit representative -> unsigned numeral in 0..2^32-1
WUns(a)    == ZMod(ZOf(a), ZPow2(32))

(***************************************************************************)
(* 4. polynomials: sequences of coefficients, negacyclic ring X^n = -1     *)
(***************************************************************************)
\* coefficient k (1-based) of a*b mod (X^n + 1): sum over i+j=k of a_i b_j,
\* minus the wrapped part
RECURSIVE SumI(_)
SumI(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumI(Tail(s))
NegMulModDef(a, b, q) ==
  LET n == Len(a) IN
  [k \in 1..n |-> SumI([i \in 1..n |->
       IF i <= k THEN a[i] * b[k - i + 1] ELSE -(a[i] * b[n + k - i + 1])]) % q]
NegMulMod(a, b, q) == NegMulModDef(a, b, q)
NegMulW(a, b) ==            \* the same product modulo 2^32 (signed representatives)
  LET n == Len(a) IN
  [k \in 1..n |-> ZInt(ZWrap(ZSumSeq([i \in 1..n |->
       IF i <= k THEN ZMul(ZOf(a[i]), ZOf(b[k - i + 1]))
                 ELSE ZNeg(ZMul(ZOf(a[i]), ZOf(b[n + k - i + 1])))])))]
ZNegMul(a, b) ==            \* the same product over the integers (numerals)
  LET n == Len(a) IN
  [k \in 1..n |-> ZSumSeq([i \in 1..n |->
       IF i <= k THEN ZMul(a[i], b[k - i + 1])
                 ELSE ZNeg(ZMul(a[i], b[n + k - i + 1]))])]
DotW(a, b) == ZInt(ZWrap(ZSumSeq([i \in 1..Len(a) |-> ZMul(ZOf(a[i]), ZOf(b[i]))])))

VecAddMod(a, b, q) == [i \in 1..Len(a) |-> AddMod(a[i], b[i], q)]
VecSubMod(a, b, q) == [i \in 1..Len(a) |-> SubMod(a[i], b[i], q)]
VecMulMod(a, b, q) == [i \in 1..Len(a) |-> MulMod(a[i], b[i], q)]
VecAddW(a, b) == [i \in 1..Len(a) |-> WAdd(a[i], b[i])]
VecSubW(a, b) == [i \in 1..Len(a) |-> WSub(a[i], b[i])]
VecNegW(a)    == [i \in 1..Len(a) |-> WNeg(a[i])]

(***************************************************************************)
(* 5. Chinese remaindering: the integer in 0..Q-1 with the given residues  *)
(***************************************************************************)
ZCrt(rs, qs) ==
  LET Q == ZProdSeq(qs)
      term(i) == LET qi == ZDiv(Q, qs[i])
                 IN ZMul(qi, ZMod(ZMul(rs[i], ZInvMod(ZMod(qi, qs[i]), qs[i])), qs[i]))
  IN ZMod(ZSumSeq([i \in 1..Len(qs) |-> term(i)]), Q)

(***************************************************************************)
(* 6. number-theoretic transforms and canonical embedding                  *)
(***************************************************************************)
RECURSIVE BitRevDef(_, _)
BitRevDef(x, bits) == IF bits = 0 THEN 0
                      ELSE (x % 2) * 2^(bits - 1) + BitRevDef(x \div 2, bits - 1)
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
\* evaluations of a at psi^(2*bitrev(i)+1), i = 0..n-1, modulo q
NttEvalDef(a, q, psi) ==
  LET n == Len(a)  lg == Log2(n) IN
  [i \in 1..n |-> SumI([k \in 1..n |->
      MulModDef(a[k] % q, PowModDef(psi, (k - 1) * (2 * BitRevDef(i - 1, lg) + 1), q), q)]) % q]
NttEval(a, q, psi) == NttEvalDef(a, q, psi)
\* the polynomial with these evaluations (psi a primitive 2n-th root)
NttInterpDef(v, q, psi) ==
  LET n == Len(v)  lg == Log2(n)
      inv(x) == PowModDef(x, q - 2, q)
      pinv == inv(psi)
  IN [k \in 1..n |-> MulModDef(inv(n % q), SumI([i \in 1..n |->
      MulModDef(v[i] % q, PowModDef(pinv, (k - 1) * (2 * BitRevDef(i - 1, lg) + 1), q), q)]) % q, q)]
NttInterp(v, q, psi) == NttInterpDef(v, q, psi)
\* least primitive m-th root of unity modulo the prime q, m a power of two, m | q-1
MinRootDef(m, q) ==
  LET S == {x \in 1..(q - 1) : PowModDef(x, m \div 2, q) = q - 1}
  IN CHOOSE x \in S : \A y \in S : x <= y
MinRoot(m, q) == MinRootDef(m, q)
\* integer square root of a numeral
ZSqrtDef(a) == Rep(CHOOSE r \in 0..Val(a) : r * r <= Val(a) /\ (r + 1) * (r + 1) > Val(a))
ZSqrt(a) == ZSqrtDef(a)
=============================================================================
