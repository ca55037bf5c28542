------------------------------- MODULE EcTrace -------------------------------
(* Judges recorded runs of jaxite_ec: conversions, chunked field arithmetic, *)
(* RNS operation chains, point walks and multi-scalar multiplications.       *)
EXTENDS TraceIO, Ec
VARIABLES l, reg, env
\* reg: what each register of the running history denotes
\*   field chain: [v |-> field value per lane, b |-> bound in multiples of P]
\*   point walk : [sys |-> coordinate system, pts |-> affine point per lane]
\* env: the RNS moduli announced by the trace
E == Trace[l]
N(s) == Len(s)
S16(x) == ZMul(x, "65536")
Min0(a, b) == IF a < b THEN a ELSE b

(* ------------------------------ conversions ---------------------------- *)
DigitsOk(x, base, cs) ==
  /\ \A k \in 1..N(cs) : cs[k] = ZMod(ZDiv(x, ZPow2(base * (k - 1))), ZPow2(base))
  /\ ZLt(x, ZPow2(base * N(cs)))
ResOk(x, rs) == N(rs) = N(env.m) /\ \A i \in 1..N(rs) : rs[i] = ZMod(x, env.m[i])
CConv ==
  << <<"chunk arrays hold the base-2^w digits of the integer", \A i \in 1..N(E.x) : DigitsOk(E.x[i], E.base, E.cs[i])>>,
     <<"array to integer inverts integer to array (" \o E.fn \o ")", E.back = E.x>>,
     <<"chunk arrays have the requested length", \A i \in 1..N(E.x) : N(E.cs[i]) = E.n>> >>
CRes ==
  << <<"RNS arrays hold the residues of the integer", N(E.cs) = N(E.x) /\ \A i \in 1..N(E.x) : ResOk(E.x[i], E.cs[i])>>,
     <<"RNS reconstruction inverts RNS conversion (" \o E.fn \o ")", E.back = E.x>> >>
\* packs: E.x[j] the coordinates of point j, E.cs[k][j] the chunks of coordinate k of point j
CPack ==
  << <<"packs are indexed coordinate first, then point (" \o E.fn \o ")",
        /\ N(E.cs) = N(E.x[1]) /\ \A k \in 1..N(E.cs) : N(E.cs[k]) = N(E.x)
        /\ \A k \in 1..N(E.cs), j \in 1..N(E.x) :
             IF E.rns THEN ResOk(E.x[j][k], E.cs[k][j]) ELSE DigitsOk(E.x[j][k], 16, E.cs[k][j])>>,
     <<"unpacking returns the same points in the same order (" \o E.fn \o ")", E.back = E.x>> >>
CrtLazy(rs) == ZCrt([i \in 1..N(rs) |-> ZMod(rs[i], env.m[i])], env.m)
CRecon == << <<"reconstruction accepts lazily reduced residues and returns the integer below the product",
               \A i \in 1..N(E.out) : E.out[i] = ZCrt([j \in 1..N(E.m) |-> ZMod(E.rs[i][j], E.m[j])], E.m)>> >>
Pairwise(ms) == \A i \in 1..N(ms) : \A j \in 1..(i - 1) : ZInvMod(ms[i], ms[j]) # "0"
CModuli ==
  << <<"RNS moduli are pairwise coprime", Pairwise(E.m)>>,
     <<"every modulus m divides 2^16 - t for its small offset t",
        N(E.m) = N(E.t) /\ \A i \in 1..N(E.m) :
           /\ ZLe("0", E.t[i]) /\ ZLt(E.t[i], "256")
           /\ ZLt("2", E.m[i]) /\ ZMod(ZSub("65536", E.t[i]), E.m[i]) = "0">>,
     <<"the product of the moduli exceeds the requested bound", ZLt(E.bound, ZProdSeq(E.m))>> >>
CConst ==
  << <<"the field modulus is the BLS12-377 prime", E.p = P>>,
     <<"the Barrett constant is floor(2^760 / p)", E.mu = ZDiv(ZPow2(760), P)>>,
     <<"the shifted modulus is p * 2^16", E.ps = S16(P)>>,
     <<"the twist constant is d", E.d = TD>> >>
CLazyMat ==
  << <<"row i of the lazy matrix is 256^(k+i) mod p in bytes",
        \A i \in 1..N(E.rows) :
          LET v == ZSumSeq([j \in 1..N(E.rows[i]) |-> ZMul(E.rows[i][j], ZPow2(8 * (j - 1)))])
          IN v = ZPowMod("256", ZOf(E.k + i - 1), E.p) /\ \A j \in 1..N(E.rows[i]) : ZLt(E.rows[i][j], "256")>> >>
CIcrt == << <<"CRT factor i is 1 modulo modulus i and 0 modulo the others",
               \A i \in 1..N(E.m) : \A j \in 1..N(E.m) :
                  ZMod(E.f[i], E.m[j]) = IF i = j THEN ZMod("1", E.m[j]) ELSE "0">> >>

(* ------------------------- chunked field arithmetic -------------------- *)
FfOut(i) ==
  LET a == E.a[i]  b == E.b[i]  c == E.c[i] IN
  CASE E.op = "add2"   -> c = ZAdd(a, b)
    [] E.op = "add3"   -> c = ZAdd(a, ZAdd(b, E.d[i]))
    [] E.op = "sub"    -> c = ZSub(a, b)
    [] E.op = "cmp"    -> ZCmp(c, "0") = ZCmp(a, b)
    [] E.op = "condsubmod" -> c = IF ZLe(E.m, a) THEN ZSub(a, E.m) ELSE a
    [] E.op = "condsub2"   -> c = IF ZLe(b, a) THEN ZSub(a, b) ELSE ZSub(ZAdd(a, E.m), b)
    [] E.op = "mul"    -> c = ZMul(a, b)
    [] E.op = "mulshift" -> c = ZMod(ZDiv(ZMul(a, b), ZPow2(760)), ZPow2(384))
    [] E.op = "barrett"  -> c = FMul(a, b)
    [] E.op = "barrettred" -> c = F(a)
    [] E.op = "lazy"     -> F(c) = FMul(a, b) /\ ZLt(c, S16(P))
    [] E.op = "carry"    -> c = a
\* the operands are inside the documented domain of the operation
FfDom(i) ==
  LET a == E.a[i]  b == E.b[i]  cap == ZPow2(16 * E.n) IN
  CASE E.op = "add2" -> ZLt(ZAdd(a, b), cap)
    [] E.op = "add3" -> ZLt(ZAdd(a, ZAdd(b, E.d[i])), cap)
    [] E.op = "sub"  -> ZLe(b, a) /\ ZLt(a, ZMul("65535", ZPow2(16 * (E.n - 1))))   \* headroom in the top chunk
    [] E.op = "condsubmod" -> ZLt(a, cap)
    [] E.op = "condsub2"   -> ZLe(a, E.m) /\ ZLe(b, E.m)
    [] E.op \in {"barrett"} -> ZLt(a, P) /\ ZLt(b, P)
    [] E.op = "barrettred"  -> ZLt(a, ZMul(P, P))
    [] OTHER -> ZLt(a, cap) /\ ZLt(b, cap)
CFf == << <<"machinery: operands inside the domain", \A i \in 1..N(E.a) : FfDom(i)>>,
          <<"field operation " \o E.op \o " is exact", N(E.c) = N(E.a) /\ \A i \in 1..N(E.a) : FfOut(i)>>,
          <<"result of " \o E.op \o " consists of 16-bit chunks", E.norm>> >>

(* --------------------------- RNS operation chains ---------------------- *)
AccBound == 4
MulB == ZOf(512 * N(env.m))             \* a reduced product is below this multiple of p
NegX == ZOf(512 * N(env.m) * AccBound)  \* a negation adds at most this multiple of p
\* EcChain!Room: the largest product is inside the range of the quotient estimate
CEnv == LET n == N(E.m)  top == ZMul(ZOf(512 * n * AccBound * 4), P)
        IN << <<"the RNS range covers the product of two maximal accumulations",
                ZLt(ZMul(ZMul(top, top), "65536"), ZMul(ZProdSeq(E.m), ZOf(65536 - 510 * n)))>> >>
Lanes(rs) == 1..N(rs)
Src(k) == reg[ToString(E.src[k].r)]
RVal(i) ==
  IF E.op = "mul" THEN ZMod(ZMul(Src(1).v[i], Src(2).v[i]), E.q)
  ELSE ZMod(ZSumSeq([k \in 1..N(E.src) |-> IF E.src[k].neg = "" THEN Src(k).v[i] ELSE ZNeg(Src(k).v[i])]), E.q)
RBound == IF E.op = "mul" THEN MulB
          ELSE ZSumSeq([k \in 1..N(E.src) |-> IF E.src[k].neg = "" THEN Src(k).b ELSE NegX])
RangeOk(rs) == \A i \in 1..N(rs) : ZLe("0", rs[i]) /\ ZLt(rs[i], "65536")
CRFresh == << <<"machinery: fresh residues denote the value", \A i \in Lanes(E.rs) : CrtLazy(E.rs[i]) = E.v[i]>> >>
CROp ==
  << <<"machinery: operands inside the documented bounds",
        E.op = "acc" => N(E.src) <= AccBound /\ \A k \in 1..N(E.src) : ZLe(Src(k).b, MulB)>>,
     <<"residues fit in 16 bits", \A i \in Lanes(E.rs) : RangeOk(E.rs[i])>>,
     <<"RNS " \o E.op \o " is congruent to the field result",
        \A i \in Lanes(E.rs) : ZMod(CrtLazy(E.rs[i]), E.q) = RVal(i)>>,
     <<"RNS " \o E.op \o " stays within the bound the next operation needs",
        \A i \in Lanes(E.rs) : ZLe(CrtLazy(E.rs[i]), ZMul(RBound, E.q))>> >>   \* equality: a negated zero
\* unreduced product: residues of the integer product
CRMulU == << <<"the unreduced product has the residues of the integer product",
               \A i \in Lanes(E.rs) : RangeOk(E.rs[i]) /\
                   CrtLazy(E.rs[i]) = ZMod(ZMul(E.a[i], E.b[i]), ZProdSeq(env.m))>> >>

(* -------------------------------- points ------------------------------- *)
IsRep(sys, c, p) == CASE sys = "xyzz" -> XyzzIs(c, p)
                      [] sys = "tw"   -> ExtIs(c, p)
                      [] sys = "proj" -> ProjIs(c, p)
                      [] sys = "aff"  -> c[1] = p[1] /\ c[2] = p[2]
AddIn(sys, p, q) == IF sys = "tw" THEN TAdd(p, q) ELSE WAddP(p, q)
NegIn(sys, p) == IF sys = "tw" THEN TNeg(p) ELSE WNegP(p)
PR(r) == reg[ToString(r)]
LoadPts == [i \in 1..N(E.k) |-> IF E.sys = "tw" THEN Twist(WMulZ(E.k[i], G)) ELSE WMulZ(E.k[i], G)]
OutPts(i) == CASE E.op = "add" -> AddIn(E.sys, PR(E.a).pts[i], PR(E.b).pts[i])
               [] E.op = "dbl" -> AddIn(E.sys, PR(E.a).pts[i], PR(E.a).pts[i])
               [] E.op = "neg" -> NegIn(E.sys, PR(E.a).pts[i])
RECURSIVE Dbls(_, _, _)
Dbls(sys, p, n) == IF n = 0 THEN p ELSE Dbls(sys, AddIn(sys, p, p), n - 1)
OutAll == IF E.op = "shl" THEN [i \in 1..N(E.c) |-> Dbls(E.sys, PR(E.a).pts[i], E.n)]
          ELSE [i \in 1..N(E.c) |-> OutPts(i)]
CPLoad == << <<"machinery: the loaded representatives denote the points",
                \A i \in 1..N(E.c) : IsRep(E.sys, E.c[i], LoadPts[i])>> >>
CPOp == << <<"point " \o E.op \o " (" \o E.imp \o ") returns a representative of the group result in every lane",
              N(E.c) = N(PR(E.a).pts) /\ \A i \in 1..N(E.c) : IsRep(E.sys, E.c[i], OutAll[i])>>,
           <<"point " \o E.op \o " (" \o E.imp \o ") output coordinates stay inside the input bound",
              \A i \in 1..N(E.c) : \A k \in 1..N(E.c[i]) : ZLt(E.c[i][k], E.bound)>> >>
CTwist ==
  << <<"the twist map sends Weierstrass points to the twisted Edwards curve",
        \A i \in 1..N(E.w) : E.t[i] = Twist(E.w[i]) \o <<"1", FMul(E.t[i][1], E.t[i][2])>> >>,
     <<"untwisting inverts twisting", E.back = E.w>> >>
CRef == << <<"reference field " \o E.cls \o " " \o E.op \o " returns the canonical result",
              E.c = CASE E.op = "add" -> FAdd(E.a, E.b) [] E.op = "sub" -> FSub(E.a, E.b)
                      [] E.op = "mul" -> FMul(E.a, E.b) [] E.op = "div" -> FDiv(E.a, E.b)
                      [] E.op = "copy" -> E.b [] E.op = "pow" -> ZPowMod(E.a, E.b, P)>> >>
CLazyRef == << <<"matrix lazy reduction is congruent and below p * 2^16",
               \A i \in 1..N(E.a) : ZMod(E.c[i], E.p) = ZMod(ZMul(E.a[i], E.b[i]), E.p)
                                    /\ ZLt(E.c[i], ZMul(E.p, "65536"))>> >>

(* --------------------- multi-scalar multiplication --------------------- *)
NS == N(E.scalars)
Pt(i) == E.pts[i]
Digit1(k, w) == ZDigit(k, w * E.slice, E.slice)
\* signed digits: carry-out of windows below w, then the digit of window w
RECURSIVE CarryIn(_, _)
CarryIn(k, w) == IF w = 0 THEN 0
                 ELSE IF Digit1(k, w - 1) + CarryIn(k, w - 1) >= 2^(E.slice - 1) THEN 1 ELSE 0
SDigit(k, w) == LET d == Digit1(k, w) + CarryIn(k, w)
                IN IF d >= 2^(E.slice - 1) THEN d - 2^E.slice ELSE d
Dig(k, w) == IF E.signed THEN SDigit(k, w) ELSE Digit1(k, w)
Tw(p) == IF E.sys = "tw" THEN Twist(p) ELSE p
RECURSIVE SumPts(_)
SumPts(s) == IF s = <<>> THEN O ELSE WAddP(Head(s), SumPts(Tail(s)))
\* members of the group g of points handled together (point_parallel lanes)
Members(g) == {i \in 1..NS : (i - 1) % E.par = g}
RECURSIVE SetSum(_, _)
SetSum(S, f) == IF S = {} THEN O ELSE LET x == CHOOSE y \in S : TRUE IN WAddP(f[x], SetSum(S \ {x}, f))
\* bucket d of window w in lane g
BucketPt(g, w, d) ==
  SetSum({i \in Members(g) : Dig(E.scalars[i], w) = d \/ (E.signed /\ Dig(E.scalars[i], w) = -d)},
         [i \in 1..NS |-> IF Dig(E.scalars[i], w) = d THEN Pt(i) ELSE WNegP(Pt(i))])
WindowPt(w) == WMsm([i \in 1..NS |-> ZOf(Dig(E.scalars[i], w))], E.pts)
CBuckets == << <<"bucket (w, d) holds the sum of the points whose digit is d (" \o E.imp \o ")",
                 \A j \in 1..N(E.b) : IsRep(E.sys, E.b[j].c, Tw(BucketPt(E.b[j].g, E.b[j].w, E.b[j].d)))>> >>
CWindows == << <<"window w holds the digit-weighted sum (" \o E.imp \o ")",
                 \A j \in 1..N(E.win) : IsRep(E.sys, E.win[j].c, Tw(WindowPt(E.win[j].w)))>> >>
CResult == << <<"the merged result is the sum of the scalar multiples (" \o E.imp \o ")",
                 IsRep(E.sys, E.c, Tw(WMsm(E.scalars, E.pts)))>> >>

Clauses ==
  CASE E.e = "conv" -> CConv
    [] E.e = "res" -> CRes
    [] E.e = "pack" -> CPack
    [] E.e = "recon" -> CRecon
    [] E.e = "moduli" -> CModuli
    [] E.e = "const" -> CConst
    [] E.e = "lazymat" -> CLazyMat
    [] E.e = "icrt" -> CIcrt
    [] E.e = "ff" -> CFf
    [] E.e = "rfresh" -> CRFresh
    [] E.e = "rop" -> CROp
    [] E.e = "rmulu" -> CRMulU
    [] E.e = "pload" -> CPLoad
    [] E.e = "pop" -> CPOp
    [] E.e = "twist" -> CTwist
    [] E.e = "ref" -> CRef
    [] E.e = "lazyref" -> CLazyRef
    [] E.e = "buckets" -> CBuckets
    [] E.e = "windows" -> CWindows
    [] E.e = "result" -> CResult
    [] E.e = "raise" -> Raised(E)
    [] E.e = "env" -> CEnv
    [] E.e \in {"newprog", "end"} -> <<>>
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Reg2 == CASE E.e = "rfresh" -> Upd(reg, ToString(E.r), [v |-> [i \in 1..N(E.v) |-> ZMod(E.v[i], E.q)], b |-> E.b])
          [] E.e = "rop" -> Upd(reg, ToString(E.r), [v |-> [i \in Lanes(E.rs) |-> RVal(i)], b |-> RBound])
          [] E.e = "pload" -> Upd(reg, ToString(E.r), [sys |-> E.sys, pts |-> LoadPts])
          [] E.e = "pop" -> Upd(reg, ToString(E.r), [sys |-> E.sys, pts |-> OutAll])
          [] E.e = "newprog" -> <<>>
          [] OTHER -> reg
Init == l = 1 /\ reg = <<>> /\ env = [m |-> <<>>]
Next == /\ l <= Len(Trace) /\ Judge(l, Clauses) /\ l' = l + 1
        /\ reg' = Reg2
        /\ env' = IF E.e = "env" THEN [m |-> E.m] ELSE env
Spec == Init /\ [][Next]_<<l, reg, env>>
=============================================================================
