-------------------------------- MODULE Ec ---------------------------------
(***************************************************************************)
(* BLS12-377 as jaxite_ec uses it: the 377-bit prime field, the curve      *)
(* y^2 = x^3 + 1, its twisted Edwards form -x^2 + y^2 = 1 + d x^2 y^2, and *)
(* the coordinate systems of the implementation as representations of      *)
(* affine points.  Field elements are Z numerals; an affine point is       *)
(* <<x, y>>; the neutral element of the Weierstrass curve is <<>>.         *)
(***************************************************************************)
EXTENDS Arith

P == "258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177"
\* prime order of the subgroup every point of the trace lives in
R == "8444461749428370424248824938781546531375899335154063827935233455917409239041"
G == << "81937999373150964239938255573465948239988671502647976594219695644855304257327692006745978603320413799295628339695",
        "241266749859715473739788878240585681733927191168601896383759122102112907357779751001206799952863815012735208165030" >>

F(x)    == ZMod(x, P)
FAdd(a, b) == ZAddMod(a, b, P)
FSub(a, b) == ZSubMod(a, b, P)
FMul(a, b) == ZMulMod(a, b, P)
FInv(a)    == ZInvMod(F(a), P)
FDiv(a, b) == FMul(a, FInv(b))
FZero(a)   == F(a) = "0"

(* ----------------------- short Weierstrass group ----------------------- *)
O == <<>>
OnCurve(p) == p = O \/ FMul(p[2], p[2]) = FAdd(FMul(p[1], FMul(p[1], p[1])), "1")
WNegP(p) == IF p = O THEN O ELSE <<p[1], F(ZNeg(p[2]))>>
WDbl(p) ==
  IF p = O \/ FZero(p[2]) THEN O
  ELSE LET s == FDiv(FMul("3", FMul(p[1], p[1])), FMul("2", p[2]))
           x == FSub(FMul(s, s), FMul("2", p[1]))
       IN <<x, FSub(FMul(s, FSub(p[1], x)), p[2])>>
WAddP(p, q) ==
  IF p = O THEN q ELSE IF q = O THEN p
  ELSE IF p[1] = q[1] THEN (IF p[2] = q[2] THEN WDbl(p) ELSE O)
  ELSE LET s == FDiv(FSub(q[2], p[2]), FSub(q[1], p[1]))
           x == FSub(FSub(FMul(s, s), p[1]), q[1])
       IN <<x, FSub(FMul(s, FSub(p[1], x)), p[2])>>
\* k*p for a numeral k >= 0
RECURSIVE WMulP(_, _)
WMulP(k, p) ==
  IF k = "0" THEN O
  ELSE LET h == WMulP(ZDiv(k, "2"), p)
           d == WDbl(h)
       IN IF ZMod(k, "2") = "1" THEN WAddP(d, p) ELSE d
WMulZ(k, p) == IF ZLt(k, "0") THEN WNegP(WMulP(ZNeg(k), p)) ELSE WMulP(k, p)
\* the multiple of the generator with discrete logarithm k (an integer)
KG(k) == WMulZ(ZOf(k), G)
\* sum of k_i * p_i by simultaneous double and add; ks: numerals
RECURSIVE WMsm(_, _)
WMsm(ks, ps) == IF Len(ks) = 0 THEN O
                ELSE WAddP(WMulZ(ks[1], ps[1]), WMsm(Tail(ks), Tail(ps)))

(* representations of a Weierstrass point *)
XyzzValid(c) == /\ ~FZero(c[3])
                /\ FMul(c[3], FMul(c[3], c[3])) = FMul(c[4], c[4])
XyzzAff(c) == IF FZero(c[3]) THEN O ELSE <<FDiv(c[1], c[3]), FDiv(c[2], c[4])>>
\* c is a representative of p
XyzzIs(c, p) == IF p = O THEN FZero(c[3])
                ELSE XyzzValid(c) /\ XyzzAff(c) = p
ProjAff(c) == IF FZero(c[3]) THEN O ELSE <<FDiv(c[1], c[3]), FDiv(c[2], c[3])>>
ProjIs(c, p) == IF p = O THEN FZero(c[3]) /\ ~FZero(c[2])
                ELSE ~FZero(c[3]) /\ ProjAff(c) = p

(* ------------------------- twisted Edwards group ----------------------- *)
TD == "122268283598675559488486339158635529096981886914877139579534153582033676785385790730042363341236035746924960903179"
TS == "10189023633222963290707194929886294091415157242906428298294512798502806398782149227503530278436336312243746741931"
TT == "23560188534917577818843641916571445935985386319233886518929971599490231428764380923487987729215299304184915158756"
TO == <<"0", "1">>
TOnCurve(p) == LET xx == FMul(p[1], p[1])  yy == FMul(p[2], p[2])
               IN FSub(yy, xx) = FAdd("1", FMul(TD, FMul(xx, yy)))
TAdd(p, q) ==
  LET k  == FMul(TD, FMul(FMul(p[1], q[1]), FMul(p[2], q[2])))
  IN << FDiv(FAdd(FMul(p[1], q[2]), FMul(p[2], q[1])), FAdd("1", k)),
        FDiv(FAdd(FMul(p[2], q[2]), FMul(p[1], q[1])), FSub("1", k)) >>
TNeg(p) == <<F(ZNeg(p[1])), p[2]>>
\* birational map from the Weierstrass curve (defined off the 2-torsion)
Twist(p) ==
  IF p = O THEN TO
  ELSE LET xm == FMul(TS, FAdd(p[1], "1"))
           ym == FMul(TS, p[2])
       IN <<FMul(TT, FDiv(xm, ym)), FDiv(FSub(xm, "1"), FAdd(xm, "1"))>>
\* extended coordinates <<X, Y, Z, T>>
ExtValid(c) == ~FZero(c[3]) /\ FMul(c[1], c[2]) = FMul(c[3], c[4])
ExtAff(c) == <<FDiv(c[1], c[3]), FDiv(c[2], c[3])>>
ExtIs(c, p) == ExtValid(c) /\ ExtAff(c) = p
=============================================================================
