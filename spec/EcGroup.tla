------------------------------- MODULE EcGroup -------------------------------
(***************************************************************************)
(* The point formulas of jaxite_ec at reduced size: every pair of points   *)
(* of y^2 = x^3 + 1 and of -x^2 + y^2 = 1 + d x^2 y^2 over a small field,  *)
(* in every representative, against the chord-tangent / Edwards group law. *)
(*  XYZZ  : add-2008-s, dbl-2008-s-1; domain: neither neutral, not equal   *)
(*          and not opposite (doubling: no 2-torsion)                      *)
(*  Extended twisted Edwards: unified add, dbl-2008-hwcd, negation; all    *)
(*          points (d is not a square, -1 is)                              *)
(* Assoc: the group law used as the oracle is associative (on all triples  *)
(* of Weierstrass points), so it is the group law.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS FP, TD
FF == 0..(FP - 1)
m(x) == x % FP
RECURSIVE InvF(_, _)
InvF(a, i) == IF (a * i) % FP = 1 THEN i ELSE InvF(a, i + 1)
Inv == [a \in 1..(FP - 1) |-> InvF(a, 1)]
Div(a, b) == m(a * Inv[m(b)])
O == <<>>
WPts == {<<x, y>> : x \in FF, y \in FF}
W == {p \in WPts : m(p[2] * p[2]) = m(p[1] * p[1] * p[1] + 1)}
Neg(p) == IF p = O THEN O ELSE <<p[1], m(-p[2])>>
Add(p, q) ==
  IF p = O THEN q ELSE IF q = O THEN p
  ELSE IF p[1] = q[1] /\ (p[2] # q[2] \/ p[2] = 0) THEN O
  ELSE LET s == IF p = q THEN Div(3 * p[1] * p[1], 2 * p[2]) ELSE Div(q[2] - p[2], q[1] - p[1])
           x == m(s * s - p[1] - q[1])
       IN <<x, m(s * (p[1] - x) - p[2])>>
T == {p \in WPts : m(p[2] * p[2] - p[1] * p[1]) = m(1 + TD * m(p[1] * p[1]) * m(p[2] * p[2]))}
TAdd(p, q) == LET k == m(TD * m(p[1] * q[1]) * m(p[2] * q[2]))
              IN <<Div(p[1] * q[2] + p[2] * q[1], 1 + k), Div(p[2] * q[2] + p[1] * q[1], 1 - k)>>
TNeg(p) == <<m(-p[1]), p[2]>>
(* representatives *)
Xyzz(p, l) == <<m(p[1] * m(l * l)), m(p[2] * m(l * l * l)), m(l * l), m(l * l * l)>>
XIs(c, p) == /\ c[3] # 0 /\ m(m(c[3] * c[3]) * c[3]) = m(c[4] * c[4])
             /\ p # O /\ Div(c[1], c[3]) = p[1] /\ Div(c[2], c[4]) = p[2]
Ext(p, l) == <<m(p[1] * l), m(p[2] * l), l, m(m(p[1] * p[2]) * l)>>
EIs(c, p) == c[3] # 0 /\ m(c[1] * c[2]) = m(c[3] * c[4]) /\ Div(c[1], c[3]) = p[1] /\ Div(c[2], c[3]) = p[2]
(* formulas *)
XAdd(a, b) ==
  LET u1 == m(a[1] * b[3])  u2 == m(b[1] * a[3])
      s1 == m(a[2] * b[4])  s2 == m(b[2] * a[4])
      p == m(u2 - u1)  r == m(s2 - s1)
      pp == m(p * p)  ppp == m(p * pp)  q == m(u1 * pp)
      x3 == m(r * r - ppp - 2 * q)
  IN <<x3, m(r * (q - x3) - s1 * ppp), m(m(a[3] * b[3]) * pp), m(m(a[4] * b[4]) * ppp)>>
XDbl(a) ==
  LET u == m(2 * a[2])  v == m(u * u)  w == m(u * v)  s == m(a[1] * v)
      mm == m(3 * m(a[1] * a[1]))
      x3 == m(mm * mm - 2 * s)
  IN <<x3, m(mm * (s - x3) - w * a[2]), m(v * a[3]), m(w * a[4])>>
EAdd(p, q) ==
  LET a == m(p[1] * q[1])  b == m(p[2] * q[2])  c == m(TD * m(p[4] * q[4]))  d == m(p[3] * q[3])
      h == m(b + a)  e == m((p[1] + p[2]) * (q[1] + q[2]) - h)  f == m(d - c)  g == m(d + c)
  IN <<m(e * f), m(g * h), m(f * g), m(e * h)>>
EDbl(p) ==
  LET a == m(p[1] * p[1])  b == m(p[2] * p[2])  ct == m(p[3] * p[3])
      h == m(-a - b)  et == m(p[1] + p[2])  e == m(et * et + h)  g == m(b - a)  f == m(g - 2 * ct)
  IN <<m(e * f), m(g * h), m(f * g), m(e * h)>>
ENeg(p) == <<m(-p[1]), p[2], p[3], m(-p[4])>>
VARIABLES sys, p, q, l, k
vars == <<sys, p, q, l, k>>
Pts(s) == IF s = "w" THEN W ELSE T
Init == sys \in {"w", "t"} /\ p \in Pts(sys) /\ l = 0 /\ k = 0 /\ q = p
Next == l = 0 /\ sys' = sys /\ p' = p /\ q' \in Pts(sys) /\ l' \in 1..(FP - 1) /\ k' \in 1..(FP - 1)
Spec == Init /\ [][Next]_vars
On == l > 0
XAddOk == (On /\ sys = "w" /\ q # p /\ q # Neg(p)) => XIs(XAdd(Xyzz(p, l), Xyzz(q, k)), Add(p, q))
XDblOk == (On /\ sys = "w" /\ p[2] # 0) => XIs(XDbl(Xyzz(p, l)), Add(p, p))
EAddOk == (On /\ sys = "t") => EIs(EAdd(Ext(p, l), Ext(q, k)), TAdd(p, q)) /\ TAdd(p, q) \in T
EDblOk == (On /\ sys = "t") => EIs(EDbl(Ext(p, l)), TAdd(p, p))
ENegOk == (On /\ sys = "t") => EIs(ENeg(Ext(p, l)), TNeg(p)) /\ TAdd(p, TNeg(p)) = <<0, 1>>
Assoc == (On /\ l = 1 /\ k = 1) => IF sys = "w" THEN \A r \in W \cup {O} : Add(Add(p, q), r) = Add(p, Add(q, r))
                         ELSE \A r \in T : TAdd(TAdd(p, q), r) = TAdd(p, TAdd(q, r))
\* what the trace specification must not require: the XYZZ sum of equal points
EqualPts == (On /\ sys = "w" /\ q = p) => ~XIs(XAdd(Xyzz(p, l), Xyzz(q, k)), Add(p, q))
=============================================================================
