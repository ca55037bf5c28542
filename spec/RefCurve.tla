----------------------------- MODULE RefCurve ------------------------------
(***************************************************************************)
(* The reference curve classes: affine, projective and XYZZ coordinates of *)
(* y^2 = x^3 + a x + b with an explicit "zero" point, and extended twisted *)
(* Edwards coordinates.  The formulas, with the case distinctions around   *)
(* equal, inverse and 2-torsion points, are checked against the group law  *)
(* for every pair of points and every representative on toy curves.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Primes, Systems, WithTorsion
VARIABLES cv, pt, qt, st
vars == <<cv, pt, qt, st>>
p == cv[1]
ca == cv[2]
cb == cv[3]
M(x) == x % p
RECURSIVE Pow(_, _)
Pow(x, e) == IF e = 0 THEN 1 ELSE M(x * Pow(x, e - 1))
Inv(x) == Pow(x, p - 2)
Zero == [z |-> TRUE, c |-> <<>>]
Pt(c) == [z |-> FALSE, c |-> c]
\* group law on affine pairs
O == <<>>
GDbl(u) == IF u = O \/ u[2] = 0 THEN O
           ELSE LET s == M((3 * u[1] * u[1] + ca) * Inv(M(2 * u[2])))
                    x == M(s * s - 2 * u[1])
                IN <<x, M(s * (u[1] - x) - u[2])>>
GAdd(u, v) == IF u = O THEN v ELSE IF v = O THEN u
              ELSE IF u[1] = v[1] THEN (IF u[2] = v[2] THEN GDbl(u) ELSE O)
              ELSE LET s == M((v[2] - u[2]) * Inv(M(v[1] - u[1])))
                       x == M(s * s - u[1] - v[1])
                   IN <<x, M(s * (u[1] - x) - u[2])>>
GNeg(u) == IF u = O THEN O ELSE <<u[1], M(-u[2])>>
Curve == {<<x, y>> \in (0..(p - 1)) \X (0..(p - 1)) : M(y * y) = M(x * x * x + ca * x + cb)}
Val(sys, u) == IF u.z THEN O
               ELSE CASE sys = "aff" -> <<u.c[1], u.c[2]>>
                      [] sys = "proj" -> LET i == Inv(u.c[3]) IN <<M(u.c[1] * i), M(u.c[2] * i)>>
                      [] sys = "xyzz" -> <<M(u.c[1] * Inv(u.c[3])), M(u.c[2] * Inv(u.c[4]))>>
Valid(sys, u) == \/ u.z
                 \/ CASE sys = "aff" -> TRUE [] sys = "proj" -> u.c[3] # 0
                      [] sys = "xyzz" -> u.c[3] # 0 /\ M(u.c[3] * u.c[3] * u.c[3]) = M(u.c[4] * u.c[4])
Reps(sys) == {Zero} \cup
  CASE sys = "aff" -> {Pt(u) : u \in Curve}
    [] sys = "proj" -> {Pt(<<M(u[1] * k), M(u[2] * k), k>>) : u \in Curve, k \in 1..(p - 1)}
    [] sys = "xyzz" -> {Pt(<<M(u[1] * k * k), M(u[2] * k * k * k), M(k * k), M(k * k * k)>>) : u \in Curve, k \in 1..(p - 1)}
\* ---------------------------------------------------------- algorithms
AffDbl(u) ==
  IF u.z \/ u.c[2] = 0 THEN Zero
  ELSE LET s == M((3 * u.c[1] * u.c[1] + ca) * Inv(M(2 * u.c[2])))
           x == M(s * s - 2 * u.c[1])
       IN Pt(<<x, M(s * (u.c[1] - x) - u.c[2])>>)
AffAdd(u, v) ==
  IF v.z THEN u ELSE IF u.z THEN v ELSE IF u = v THEN AffDbl(u)
  ELSE IF u.c[1] = v.c[1] THEN Zero
  ELSE LET s == M((v.c[2] - u.c[2]) * Inv(M(v.c[1] - u.c[1])))
           x == M(s * s - u.c[1] - v.c[1])
       IN Pt(<<x, M(s * (u.c[1] - x) - u.c[2])>>)
XDbl(u) ==
  IF u.z THEN Zero
  ELSE LET U == M(2 * u.c[2])  V == M(U * U)  W == M(U * V)  S == M(u.c[1] * V)
           m == M(3 * u.c[1] * u.c[1] + ca * M(u.c[3] * u.c[3]))
           x == M(m * m - 2 * S)
           zz == M(V * u.c[3])
       IN IF zz = 0 THEN Zero ELSE Pt(<<x, M(m * (S - x) - W * u.c[2]), zz, M(W * u.c[4])>>)
XAdd(u, v) ==
  IF v.z THEN u ELSE IF u.z THEN v ELSE IF u = v THEN XDbl(u)
  ELSE LET u1 == M(u.c[1] * v.c[3])  u2 == M(v.c[1] * u.c[3])
           s1 == M(u.c[2] * v.c[4])  s2 == M(v.c[2] * u.c[4])
           P == M(u2 - u1)  R == M(s2 - s1)
           PP == M(P * P)  PPP == M(P * PP)  Q == M(u1 * PP)
           x == M(R * R - PPP - 2 * Q)
       IN IF P = 0 THEN (IF R = 0 THEN XDbl(u) ELSE Zero)
          ELSE Pt(<<x, M(R * (Q - x) - s1 * PPP), M(M(u.c[3] * v.c[3]) * PP), M(M(u.c[4] * v.c[4]) * PPP)>>)
PDbl(u) ==
  IF u.z THEN Zero
  ELSE LET X == u.c[1]  Y == u.c[2]  Z == u.c[3]
           xx == M(X * X)  zz == M(Z * Z)  w == M(ca * zz + 3 * xx)  s == M(2 * M(Y * Z))
           sss == M(s * M(s * s))  r == M(Y * s)  rr == M(r * r)
           B == M((X + r) * (X + r) - xx - rr)  h == M(w * w - 2 * B)
       IN IF sss = 0 THEN Zero ELSE Pt(<<M(h * s), M(w * (B - h) - 2 * rr), sss>>)
PMixed(u, v) ==      \* v has Z = 1
  LET U == M(v.c[2] * u.c[3] - u.c[2])  V == M(v.c[1] * u.c[3] - u.c[1])
      vv == M(V * V)  vvv == M(V * vv)  r == M(vv * u.c[1])  A == M(M(U * U) * u.c[3] - vvv - 2 * r)
  IN IF V = 0 THEN (IF U = 0 THEN PDbl(v) ELSE Zero)
     ELSE Pt(<<M(V * A), M(U * (r - A) - vvv * u.c[2]), M(vvv * u.c[3])>>)
\* complete addition (Renes, Costello, Batina), algorithm 1
PGen(u, v) ==
  LET x1 == u.c[1]  y1 == u.c[2]  z1 == u.c[3]  x2 == v.c[1]  y2 == v.c[2]  z2 == v.c[3]
      b3 == M(3 * cb)
      xx == M(x1 * x2)  yy == M(y1 * y2)  zz == M(z1 * z2)
      xy == M(x1 * y2 + x2 * y1)  xz == M(x1 * z2 + x2 * z1)  yz == M(y1 * z2 + y2 * z1)
      tz == M(ca * xz + b3 * zz)
      lo == M(yy - tz)  hi == M(yy + tz)
      t1 == M(3 * xx + ca * zz)
      t4 == M(b3 * xz + ca * M(xx - ca * zz))
      z3 == M(yz * hi + xy * t1)
  IN IF z3 = 0 THEN Zero ELSE Pt(<<M(xy * lo - yz * t4), M(lo * hi + t1 * t4), z3>>)
PAdd(u, v) ==
  IF v.z THEN u ELSE IF u.z THEN v ELSE IF u = v THEN PDbl(u)
  ELSE IF v.c[3] = 1 THEN PMixed(u, v) ELSE IF u.c[3] = 1 THEN PMixed(v, u) ELSE PGen(u, v)
AddOf(sys, u, v) == CASE sys = "aff" -> AffAdd(u, v) [] sys = "proj" -> PAdd(u, v) [] sys = "xyzz" -> XAdd(u, v)
DblOf(sys, u) == CASE sys = "aff" -> AffDbl(u) [] sys = "proj" -> PDbl(u) [] sys = "xyzz" -> XDbl(u)
\* ---------------------------------------------------------- exploration
Curves == {<<q, a, b>> \in Primes \X (0..10) \X (0..10) :
             a < q /\ b < q /\ (4 * a * a * a + 27 * b * b) % q # 0}
Odd == {y \in Curve : y[2] = 0} = {}
Init == cv = <<0>> /\ pt = Zero /\ qt = Zero /\ st = "start"
Pick == /\ st = "start" /\ \E c \in Curves : cv' = c
        /\ st' = "curve" /\ UNCHANGED <<pt, qt>>
First == /\ st = "curve" /\ \E sys \in Systems : \E u \in Reps(sys) : pt' = u /\ st' = sys
         /\ qt' = Zero /\ UNCHANGED cv
Second == /\ st \in Systems /\ qt = Zero /\ \E v \in Reps(st) : qt' = v
          /\ UNCHANGED <<cv, pt, st>>
Next == Pick \/ First \/ Second
Spec == Init /\ [][Next]_vars
\* the complete projective formulas are complete on curves without 2-torsion
Scope == st = "proj" => Odd \/ WithTorsion
AddRight == (st \in Systems /\ Scope) =>
  LET s == AddOf(st, pt, qt) IN Valid(st, s) /\ Val(st, s) = GAdd(Val(st, pt), Val(st, qt))
DblRight == (st \in Systems /\ Scope) =>
  LET s == DblOf(st, pt) IN Valid(st, s) /\ Val(st, s) = GDbl(Val(st, pt))
=============================================================================
