-------------------------------- MODULE Ckks --------------------------------
(***************************************************************************)
(* The RNS-CKKS scheme of jaxite_ckks at the level of ring elements.       *)
(*                                                                         *)
(* Ring: R = Z[X]/(X^n + 1).  A modulus chain qs is a sequence of distinct *)
(* primes; Q = product.  An element of R/QR is held                        *)
(*   - by value: a sequence of n numerals in 0..Q-1;                       *)
(*   - in residue form: one sequence of n coefficients per modulus;        *)
(*   - in transform form: one sequence of n evaluations per modulus, at    *)
(*     the odd powers of a primitive 2n-th root, in bit-reversed order.    *)
(* A ciphertext is a sequence <<c0, c1, ...>> of elements; its phase under *)
(* s is c0 + c1 s + c2 s^2 + ...                                           *)
(*                                                                         *)
(* Part 1: the property level (values, phases, bounds).                    *)
(* Part 2: the algorithm level (fast basis conversion, rescaling, gadget   *)
(*         decomposition, approximate mod-down), whose agreement with      *)
(*         part 1 is model-checked in CkksUnits.tla and CkksDesign.tla.    *)
(***************************************************************************)
EXTENDS Arith

ZS(s) == [i \in 1..Len(s) |-> ZOf(s[i])]
QOf(qs) == ZProdSeq(ZS(qs))
SumAbs(s) == SumI([i \in 1..Len(s) |-> AbsI(s[i])])
ZMax(S) == CHOOSE x \in S : \A y \in S : ZLe(y, x)

(***************************************************************************)
(* Part 1a.  representations                                               *)
(***************************************************************************)
Canonical(x, qs) ==
  /\ Len(x) = Len(qs)
  /\ \A m \in 1..Len(qs) : \A k \in 1..Len(x[m]) : x[m][k] >= 0 /\ x[m][k] < qs[m]
ToResidues(x, qs, ps) == [m \in 1..Len(qs) |-> NttInterp(x[m], qs[m], ps[m])]
ToTransform(c, qs, ps) == [m \in 1..Len(qs) |-> NttEval(c[m], qs[m], ps[m])]
\* residue form -> value, in 0..Q-1
Lift(c, qs) == LET zq == ZS(qs) IN
  [k \in 1..Len(c[1]) |-> ZCrt([m \in 1..Len(qs) |-> ZOf(c[m][k])], zq)]
\* value -> residue form
Reduce(v, qs) == [m \in 1..Len(qs) |-> [k \in 1..Len(v) |-> ZInt(ZMod(v[k], ZOf(qs[m])))]]
Value(x, qs, ps) == Lift(ToResidues(x, qs, ps), qs)

(***************************************************************************)
(* Part 1b.  ring operations on values (numerals, not necessarily reduced) *)
(***************************************************************************)
VAdd(a, b) == [k \in 1..Len(a) |-> ZAdd(a[k], b[k])]
VSub(a, b) == [k \in 1..Len(a) |-> ZSub(a[k], b[k])]
VScale(z, a) == [k \in 1..Len(a) |-> ZMul(z, a[k])]
VModQ(a, Q) == [k \in 1..Len(a) |-> ZMod(a[k], Q)]
VMul(a, b) == ZNegMul(a, b)
VZero(n) == [k \in 1..n |-> "0"]
VCenter(a, Q) == [k \in 1..Len(a) |-> ZCenter(a[k], Q)]
\* f(X) -> f(X^g), g odd:  X^k goes to X^(kg), X^n = -1
OddInv(g, m) == CHOOSE h \in 0..(m - 1) : (h * g) % m = 1 % m
VAut(a, g) ==
  LET n == Len(a)  h == OddInv(g % (2 * n), 2 * n) IN
  [t \in 1..n |-> LET k == ((t - 1) * h) % (2 * n) IN
                  IF k < n THEN a[k + 1] ELSE ZNeg(a[k - n + 1])]
\* every coefficient of a - b is within bound of 0 modulo Q
VNear(a, b, Q, bound) ==
  \A k \in 1..Len(a) : ZLe(ZAbs(ZCenter(ZSub(a[k], b[k]), Q)), bound)
VSame(a, b, Q) == \A k \in 1..Len(a) : ZMod(ZSub(a[k], b[k]), Q) = "0"
VMaxAbs(a, Q) == ZMax({ZAbs(ZCenter(a[k], Q)) : k \in 1..Len(a)})

\* phase of a ciphertext in transform form under the integer key s
PhaseT(ct, qs, ps, s) ==
  Lift([m \in 1..Len(qs) |->
     LET q == qs[m]
         sE == NttEval(s, q, ps[m])
         RECURSIVE acc(_)
         acc(j) == IF j = Len(ct) THEN ct[j][m]
                   ELSE VecAddMod(ct[j][m], VecMulMod(sE, acc(j + 1), q), q)
     IN NttInterp(acc(1), q, ps[m])], qs)
\* phase of a ciphertext given by value
PhaseV(ct, s) ==
  LET RECURSIVE acc(_)
      acc(j) == IF j = Len(ct) THEN ct[j] ELSE VAdd(ct[j], VMul(ZS(s), acc(j + 1)))
  IN acc(1)

(***************************************************************************)
(* Part 1c.  noise bounds.  E bounds the coefficients of one noise sample. *)
(***************************************************************************)
PkBound(E) == ZOf(E)
EncBound(n, E, s) == ZOf(E * (n + 1 + SumAbs(s)))
RECURSIVE PartsOf(_, _)
\* partition of 1..L into runs of alpha indices
PartsOf(L, alpha) ==
  LET RECURSIVE go(_)
      go(i) == IF i > L THEN <<>>
               ELSE <<[j \in 1..(IF i + alpha - 1 <= L THEN alpha ELSE L - i + 1) |-> i + j - 1]>> \o go(i + alpha)
  IN go(1)
Alpha(L, dnum) == (L + dnum - 1) \div dnum
Parts(L, dnum) == PartsOf(L, Alpha(L, dnum))
SelQ(qs, idx) == [j \in 1..Len(idx) |-> qs[idx[j]]]
\* sum over parts of n * alpha_i * Q_i * E: every digit is below alpha_i * Q_i
KsBound(n, qs, dnum, E) ==
  LET P == Parts(Len(qs), dnum) IN
  ZSumSeq([i \in 1..Len(P) |-> ZMul(ZOf(n * E * Len(P[i])), QOf(SelQ(qs, P[i])))])
\* |D*y - x| when every polynomial of the ciphertext was rounded to the nearest multiple of D
RoundBound(D, s) == ZMul(ZDiv(ZSub(D, "1"), "2"), ZOf(1 + SumAbs(s)))
\* |P*y - x| for the approximate (uncentred) mod-down by k special primes
DownBound(P, k, s) == ZMul(ZMul(P, ZOf(k)), ZOf(1 + SumAbs(s)))

(***************************************************************************)
(* Part 1d.  canonical embedding, fixed point with FB fractional bits.     *)
(* Slot j of f is f(zeta^(5^j)), zeta = exp(i pi / n).                     *)
(***************************************************************************)
FB == 96
ONE == ZPow2(FB)
FMul(a, b) == ZDiv(ZMul(a, b), ONE)
CMul(u, v) == <<ZSub(FMul(u[1], v[1]), FMul(u[2], v[2])), ZAdd(FMul(u[1], v[2]), FMul(u[2], v[1]))>>
FSqrt(a) == ZSqrt(ZMul(a, ONE))
RECURSIVE CosSin(_)
\* exp(2 pi i / m), m a power of two, by half-angle formulas
CosSin(m) == IF m = 1 THEN <<ONE, "0">>
             ELSE IF m = 2 THEN <<ZNeg(ONE), "0">>
             ELSE IF m = 4 THEN <<"0", ONE>>
             ELSE LET c == CosSin(m \div 2)[1] IN
                  <<FSqrt(ZDiv(ZAdd(ONE, c), "2")), FSqrt(ZDiv(ZSub(ONE, c), "2"))>>
RECURSIVE CPow(_, _)
CPow(u, e) == IF e = 0 THEN <<ONE, "0">>
              ELSE LET h == CPow(u, e \div 2)  s == CMul(h, h)
                   IN IF e % 2 = 1 THEN CMul(s, u) ELSE s
Zetas(n) == LET u == CosSin(2 * n) IN [e \in 0..(2 * n - 1) |-> CPow(u, e)]
\* slots of the integer polynomial a (numerals), fixed point
Slots(a) ==
  LET n == Len(a)  zt == Zetas(n) IN
  [j \in 0..((n \div 2) - 1) |->
     LET g == PowModDef(5, j, 2 * n) IN
     << ZSumSeq([k \in 1..n |-> ZMul(a[k], zt[((k - 1) * g) % (2 * n)][1])]),
        ZSumSeq([k \in 1..n |-> ZMul(a[k], zt[((k - 1) * g) % (2 * n)][2])]) >>]

(***************************************************************************)
(* Part 2.  algorithms                                                     *)
(***************************************************************************)
\* Barrett reduction with one conditional subtraction
BarrettS(m) == LET RECURSIVE lg(_) lg(k) == IF 2^k >= m THEN k ELSE lg(k + 1) IN 2 * lg(0)
BarrettAlg(z, m) == LET s == BarrettS(m)
                        t == (z * (2^s \div m)) \div 2^s
                        r == z - t * m
                    IN IF r >= m THEN r - m ELSE r
\* fast basis conversion of residues x (mod qs) to the moduli pt: sum_i [x_i qhat_i^-1]_{q_i} qhat_i mod p
BconvAlg(x, qs, pt) ==
  LET Q == QOf(qs)
      hat(i) == ZDiv(Q, ZOf(qs[i]))
      dig(i) == ZMod(ZMul(ZOf(x[i]), ZInvMod(ZMod(hat(i), ZOf(qs[i])), ZOf(qs[i]))), ZOf(qs[i]))
      v == ZSumSeq([i \in 1..Len(qs) |-> ZMul(dig(i), hat(i))])
  IN [j \in 1..Len(pt) |-> ZInt(ZMod(v, ZOf(pt[j])))]
\* out_j = x + u Q for one u in 0..Len(qs)-1
BconvOk(x, qs, out, pt) ==
  LET Q == QOf(qs)  v == ZCrt(ZS(x), ZS(qs)) IN
  \E u \in 0..(Len(qs) - 1) :
     \A j \in 1..Len(pt) : ZOf(out[j]) = ZMod(ZAdd(v, ZMul(ZOf(u), Q)), ZOf(pt[j]))
\* drop the last modulus of residues x, rounding to nearest
DropAlg(x, qs) ==
  LET L == Len(qs)  ql == qs[L]
      r == IF 2 * x[L] >= ql + 1 THEN x[L] - ql ELSE x[L]
  IN [i \in 1..(L - 1) |->
        ZInt(ZMod(ZMul(ZSub(ZOf(x[i]), ZOf(r)), ZInvMod(ZOf(ql), ZOf(qs[i]))), ZOf(qs[i])))]
RECURSIVE RescaleAlg(_, _, _)
RescaleAlg(x, qs, num) == IF num = 0 THEN x
                          ELSE RescaleAlg(DropAlg(x, qs), SubSeq(qs, 1, Len(qs) - 1), num - 1)
\* y is x divided by the last num moduli, rounded to nearest
RescaleOk(vx, vy, qs, num) ==
  LET L == Len(qs)
      D == QOf(SubSeq(qs, L - num + 1, L))
      Q == QOf(qs)
      half == ZDiv(ZSub(D, "1"), "2")
  IN \A k \in 1..Len(vx) : ZLe(ZAbs(ZCenter(ZSub(ZMul(D, vy[k]), vx[k]), Q)), half)
\* approximate mod-down by P: residues x mod qs \o ps
ModDownAlg(x, qs, pp) ==
  LET L == Len(qs)  P == QOf(pp)
      conv == BconvAlg(SubSeq(x, L + 1, Len(x)), pp, qs)
  IN [i \in 1..L |-> ZInt(ZMod(ZMul(ZSub(ZOf(x[i]), ZOf(conv[i])), ZInvMod(ZMod(P, ZOf(qs[i])), ZOf(qs[i]))), ZOf(qs[i])))]
=============================================================================
