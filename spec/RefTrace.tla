----------------------------- MODULE RefTrace ------------------------------
(* Judges the reference classes of jaxite_ec/algorithm: big integers, field *)
(* elements in three representations (sessions of RefField.tla), curve      *)
(* points in four coordinate systems (RefCurve.tla) over any prime.         *)
EXTENDS Arith, TraceIO
VARIABLES l, reg
E == Trace[l]
P == E.p
F(x) == ZMod(x, P)
FAdd(a, b) == ZAddMod(F(a), F(b), P)
FSub(a, b) == ZSubMod(F(a), F(b), P)
FMul(a, b) == ZMulMod(F(a), F(b), P)
\* exponentiation by squaring, on numerals
RECURSIVE FPow(_, _)
FPow(x, e) == IF e = "0" THEN F("1")
              ELSE LET h == FPow(x, ZDiv(e, "2"))  s == FMul(h, h)
                   IN IF ZMod(e, "2") = "1" THEN FMul(s, x) ELSE s
FInv(a) == IF F(a) = "0" THEN "0" ELSE ZInvMod(F(a), P)
FDiv(a, b) == FMul(a, FInv(b))

(* ------------------------------------------------------ big integers *)
RECURSIVE ZPowN(_, _)
ZPowN(x, n) == IF n = 0 THEN "1" ELSE ZMul(x, ZPowN(x, n - 1))
Truth(b) == IF b THEN "1" ELSE "0"
RECURSIVE Lg2(_, _)
Lg2(k, a) == IF ZLe(a, ZPow2(k)) THEN k ELSE Lg2(k + 1, a)
\* bitwise and of non-negative numerals
RECURSIVE BAnd(_, _)
BAnd(a, b) == IF a = "0" \/ b = "0" THEN "0"
              ELSE ZAdd(IF ZMod(a, "2") = "1" /\ ZMod(b, "2") = "1" THEN "1" ELSE "0",
                        ZMul("2", BAnd(ZDiv(a, "2"), ZDiv(b, "2"))))
BigWant ==
  CASE E.op = "add" -> ZAdd(E.a, E.b) [] E.op = "sub" -> ZSub(E.a, E.b) [] E.op = "mul" -> ZMul(E.a, E.b)
    [] E.op = "div" -> ZDiv(E.a, E.b) [] E.op = "mod" -> ZMod(E.a, E.b)
    [] E.op = "pow" -> ZPowN(E.a, E.n)
    [] E.op = "powmod" -> FPow(E.a, E.b)
    [] E.op = "shl" -> ZMul(E.a, ZPow2(E.n)) [] E.op = "shr" -> ZDiv(E.a, ZPow2(E.n))
    [] E.op = "and" -> BAnd(E.a, E.b)
    [] E.op = "lt" -> Truth(ZLt(E.a, E.b)) [] E.op = "le" -> Truth(ZLe(E.a, E.b))
    [] E.op = "gt" -> Truth(ZLt(E.b, E.a)) [] E.op = "ge" -> Truth(ZLe(E.b, E.a))
    [] E.op = "eq" -> Truth(E.a = E.b) [] E.op = "ne" -> Truth(E.a # E.b)
    [] E.op = "id" -> E.a
    [] E.op = "ceil_log2" -> ZOf(Lg2(0, E.a))
CBig == << <<"big integer " \o E.op \o " is exact", E.out = BigWant>> >>

(* ---------------------------------------------------- field sessions *)
FRule ==
  CASE E.op = "new" -> F(E.v)
    [] E.op = "add" -> FAdd(reg[E.a], reg[E.b]) [] E.op = "sub" -> FSub(reg[E.a], reg[E.b])
    [] E.op = "mul" -> FMul(reg[E.a], reg[E.b]) [] E.op = "div" -> FDiv(reg[E.a], reg[E.b])
    [] E.op = "pow" -> FPow(reg[E.a], E.n)
    [] E.op \in {"copy", "switch"} -> reg[E.a]
CField ==
  << <<"reference field element (" \o E.rep \o ") after " \o E.op \o " stands for the exact result",
        E.out = FRule /\ ZLe("0", E.raw) /\ ZLt(E.raw, P) /\ (E.rep # "mont" => E.raw = FRule)>> >>
CFEnd == << <<"registers of a field session keep their values",
        \A i \in 1..Len(E.outs) : E.outs[i] # "none" => E.outs[i] = reg[i]>> >>

(* ------------------------------------------------------------ curves *)
O == <<>>
GDbl(u) == IF u = O \/ u[2] = "0" THEN O
           ELSE LET s == FDiv(FAdd(FMul("3", FMul(u[1], u[1])), E.ca), FMul("2", u[2]))
                    x == FSub(FMul(s, s), FMul("2", u[1]))
                IN <<x, FSub(FMul(s, FSub(u[1], x)), u[2])>>
GAdd(u, v) == IF u = O THEN v ELSE IF v = O THEN u
              ELSE IF u[1] = v[1] THEN (IF u[2] = v[2] THEN GDbl(u) ELSE O)
              ELSE LET s == FDiv(FSub(v[2], u[2]), FSub(v[1], u[1]))
                       x == FSub(FSub(FMul(s, s), u[1]), v[1])
                   IN <<x, FSub(FMul(s, FSub(u[1], x)), u[2])>>
RECURSIVE GShift(_, _)
GShift(u, n) == IF n = 0 THEN u ELSE GShift(GDbl(u), n - 1)
Dim == CASE E.sys = "aff" -> 2 [] E.sys = "proj" -> 3 [] E.sys = "xyzz" -> 4
Canon(c) == \A i \in 1..Len(c) : ZLe("0", c[i]) /\ ZLt(c[i], P)
Valid(u) == \/ u.z
            \/ /\ Len(u.c) >= Dim /\ Canon(u.c)
               /\ CASE E.sys = "aff" -> TRUE [] E.sys = "proj" -> u.c[3] # "0"
                    [] E.sys = "xyzz" -> u.c[3] # "0" /\ FMul(u.c[3], FMul(u.c[3], u.c[3])) = FMul(u.c[4], u.c[4])
PVal(u) == IF u.z THEN O
          ELSE CASE E.sys = "aff" -> <<u.c[1], u.c[2]>>
                 [] E.sys = "proj" -> <<FDiv(u.c[1], u.c[3]), FDiv(u.c[2], u.c[3])>>
                 [] E.sys = "xyzz" -> <<FDiv(u.c[1], u.c[3]), FDiv(u.c[2], u.c[4])>>
CWAdd == << <<"reference " \o E.sys \o " addition is the group law",
               Valid(E.out) /\ PVal(E.out) = GAdd(PVal(E.a), PVal(E.b))>> >>
CWShift == << <<"reference " \o E.sys \o " shift is repeated doubling",
               Valid(E.out) /\ PVal(E.out) = GShift(PVal(E.a), E.n)>> >>
CWAff == << <<"reference " \o E.sys \o " conversion to affine gives the point",
               IF E.a.z THEN E.out.z ELSE ~E.out.z /\ <<E.out.c[1], E.out.c[2]>> = PVal(E.a)>> >>
CWFrom == << <<"reference conversion from affine gives the point",
               Valid(E.out) /\ PVal(E.out) = (IF E.a.z THEN O ELSE <<E.a.c[1], E.a.c[2]>>)>> >>
\* twisted Edwards, -x^2 + y^2 = 1 + d x^2 y^2
TAdd(u, v) ==
  LET k == FMul(E.d, FMul(FMul(u[1], v[1]), FMul(u[2], v[2])))
  IN << FDiv(FAdd(FMul(u[1], v[2]), FMul(u[2], v[1])), FAdd("1", k)),
        FDiv(FAdd(FMul(u[2], v[2]), FMul(u[1], v[1])), FSub("1", k)) >>
RECURSIVE TShift(_, _)
TShift(u, n) == IF n = 0 THEN u ELSE TShift(TAdd(u, u), n - 1)
TValid(c) == Len(c) = 4 /\ Canon(c) /\ c[3] # "0" /\ FMul(c[1], c[2]) = FMul(c[3], c[4])
TVal(c) == <<FDiv(c[1], c[3]), FDiv(c[2], c[3])>>
CTAdd == << <<"reference twisted Edwards addition is the group law",
               TValid(E.out) /\ TVal(E.out) = TAdd(TVal(E.a), TVal(E.b))>> >>
CTShift == << <<"reference twisted Edwards shift is repeated doubling",
               TValid(E.out) /\ TVal(E.out) = TShift(TVal(E.a), E.n)>> >>
\* Weierstrass -> Montgomery -> Edwards
TwistOf(u) ==
  LET xm == FMul(E.s, FSub(u[1], E.alpha))  ym == FMul(E.s, u[2])
  IN <<FMul(E.t, FDiv(xm, ym)), FDiv(FSub(xm, "1"), FAdd(xm, "1"))>>
TOnCurve(c) == LET xx == FMul(c[1], c[1])  yy == FMul(c[2], c[2])
               IN FSub(yy, xx) = FAdd("1", FMul(E.d, FMul(xx, yy)))
CTwist == << <<"reference twist maps the Weierstrass point to its Edwards image",
               TValid(E.out) /\ TVal(E.out) = TwistOf(E.u) /\ TOnCurve(TVal(E.out))>>,
             <<"reference untwist returns the Weierstrass point", E.back = E.u>> >>
CTwistP == << <<"reference twist of a projective point is a representative of the Edwards image",
                LET w == TwistOf(E.u) IN /\ ZMod(E.out[3], P) # "0"
                  /\ \A i \in 1..2 : ZMod(ZSub(E.out[i], ZMul(w[i], E.out[3])), P) = "0">> >>
CTWalk == << <<"reference twisted Edwards results convert back to the Weierstrass sum",
               E.out = GAdd(E.a, E.b) \/ GAdd(E.a, E.b) = O>> >>

(* ------------------------------------------- lazy reduction, residues *)
CLazy == << <<"lazy reduction by a matrix is congruent to the product and stays below 2^16 p",
        Len(E.out) = Len(E.a) /\
        \A i \in 1..Len(E.a) : /\ ZMod(E.out[i], P) = ZMod(ZMul(E.a[i], E.b[i]), P)
                                /\ ZLe("0", E.out[i]) /\ ZLt(E.out[i], ZMul(P, ZPow2(16)))>> >>
CProd == << <<"a product reduced in residues is congruent to the product and stays far below the residue range",
        Len(E.out) = Len(E.a) /\
        \A i \in 1..Len(E.a) : /\ ZMod(E.out[i], P) = ZMod(ZMul(E.a[i], E.b[i]), P)
                                /\ ZLe("0", E.out[i]) /\ ZLt(ZMul("8", E.out[i]), E.Q)>> >>
CFold == << <<"folding the high half keeps the residue and returns 16 bits",
        \A i \in 1..Len(E.xs) : \A j \in 1..Len(E.ms) : ZMod(ZSub(E.out[i][j], E.xs[i]), E.ms[j]) = "0" /\ ZLt(E.out[i][j], ZPow2(16))>> >>
RECURSIVE ZGcd(_, _)
ZGcd(a, b) == IF b = "0" THEN a ELSE ZGcd(b, ZMod(a, b))
CResidues ==
  << <<"found moduli are pairwise coprime, large enough and 2^precision minus their offsets (or half that)",
        /\ \A i, j \in 1..Len(E.ms) : i < j => ZGcd(E.ms[i], E.ms[j]) = "1"
        /\ ZLt(E.top, ZProdSeq(E.ms))
        /\ \A i \in 1..Len(E.ms) : ZMod(ZPow2(E.prec), E.ms[i]) = ZMod(E.offs[i], E.ms[i])>>,
     <<"residues reconstruct to the integer",
        /\ \A x \in 1..Len(E.xs) : E.res[x] = [i \in 1..Len(E.ms) |-> ZMod(E.xs[x], E.ms[i])]
        /\ E.back = E.xs>> >>
Clauses == CASE E.e = "lazy" -> CLazy [] E.e = "rnsprod" -> CProd [] E.e = "fold" -> CFold [] E.e = "residues" -> CResidues [] E.e = "big" -> CBig [] E.e = "fstep" -> CField [] E.e = "fend" -> CFEnd
             [] E.e = "wadd" -> CWAdd [] E.e = "wshift" -> CWShift [] E.e = "waff" -> CWAff [] E.e = "wfrom" -> CWFrom
             [] E.e = "tadd" -> CTAdd [] E.e = "tshift" -> CTShift [] E.e = "twist" -> CTwist [] E.e = "twistp" -> CTwistP [] E.e = "twalk" -> CTWalk
             [] E.e = "raise" -> Raised(E)
             [] E.e = "reject" -> << <<"invalid arguments are rejected: " \o E.what, ~E.ok>> >>
             [] E.e \in {"fbegin", "end"} -> <<>>
Init == l = 1 /\ reg = <<>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ Judge(l, Clauses)
        /\ reg' = IF E.e = "fbegin" THEN [r \in 1..4 |-> "none"]
                  ELSE IF E.e = "fstep" THEN [reg EXCEPT ![E.d] = FRule] ELSE reg
Spec == Init /\ [][Next]_<<l, reg>>
=============================================================================
