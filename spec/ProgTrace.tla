----------------------------- MODULE ProgTrace -----------------------------
(***************************************************************************)
(* Judges CKKS programs replayed on the real kernels.  The tracked state   *)
(* <<M, D, B>> of every register evolves by the rules model-checked in     *)
(* Prog.tla (arbitrary precision here); after every step the ciphertext    *)
(* the kernel returned must satisfy                                        *)
(*     D * phase = M + e  (mod D * Q_lvl),   |e| <= B,                     *)
(* and at the end so must every register, as it is then, and its           *)
(* decryption.                                                             *)
(***************************************************************************)
EXTENDS Ckks, TraceIO
VARIABLES l, ctx, reg
E == Trace[l]
S == ctx.s
NN == Len(ctx.s)
QsAt(v) == SubSeq(ctx.qs, 1, v)
WAt(v) == SubSeq(ctx.w, 1, v)
QAt(v) == QOf(QsAt(v))
PP == QOf(ctx.pp)
VL1(a) == ZSumSeq([k \in 1..Len(a) |-> ZAbs(a[k])])
\* relinearisation and switching errors are integers after dividing by P
RelinErr(v) == ZDiv(ZAdd(KsBound(NN, QsAt(v), ctx.dnum, ctx.E), DownBound(PP, Len(ctx.pp), S)), PP)
ConjErr(v) == ZDiv(ZAdd(KsBound(NN, QsAt(v), ctx.dnum, ctx.E), RoundBound(PP, S)), PP)
MuxErr(v) == ZDiv(ZAdd(ZMul("2", KsBound(NN, QsAt(v), 1, ctx.E)), RoundBound(PP, S)), PP)
RotG(j) == OddInv(PowModDef(5, j, 2 * NN), 2 * NN)
Ones(n) == [k \in 1..n |-> "1"]

Rule ==
  LET x == reg[E.a]
      y == reg[E.b] IN
  CASE E.op = "enc" ->
         [lvl |-> E.lvl, sz |-> 2, M |-> VCenter(Value(E.pt, QsAt(E.lvl), WAt(E.lvl)), QAt(E.lvl)),
          D |-> "1", B |-> EncBound(NN, ctx.E, S)]
    [] E.op = "add" ->
         IF x.D = y.D THEN [x EXCEPT !.M = VAdd(@, y.M), !.B = ZAdd(@, y.B)]
         ELSE [x EXCEPT !.M = VAdd(VScale(y.D, @), VScale(x.D, y.M)), !.D = ZMul(x.D, y.D),
                        !.B = ZAdd(ZMul(y.D, x.B), ZMul(x.D, y.B))]
    [] E.op = "pmul" ->
         LET p == VCenter(Value(E.pt, QsAt(x.lvl), WAt(x.lvl)), QAt(x.lvl)) IN
         [x EXCEPT !.M = VMul(@, p), !.B = ZMul(@, VL1(p))]
    [] E.op = "tensor" ->
         [x EXCEPT !.sz = 3, !.M = VMul(@, y.M), !.D = ZMul(x.D, y.D),
                   !.B = ZAdd(ZAdd(ZMul(VL1(x.M), y.B), ZMul(VL1(y.M), x.B)), ZMul(ZOf(NN), ZMul(x.B, y.B)))]
    [] E.op = "relin" -> [x EXCEPT !.sz = 2, !.B = ZAdd(@, ZMul(x.D, RelinErr(x.lvl)))]
    [] E.op = "rescale" ->
         LET q == ZOf(ctx.qs[x.lvl])
             \* one rounding per component, powers of s beyond the first bounded by |s|^2
             rnd == IF x.sz = 2 THEN RoundBound(q, S)
                    ELSE ZMul(RoundBound(q, S), ZOf(1 + SumAbs(S))) IN
         [x EXCEPT !.lvl = @ - 1, !.D = ZMul(@, q), !.B = ZAdd(@, ZMul(x.D, rnd))]
    [] E.op = "conj" -> [x EXCEPT !.M = VAut(@, 2 * NN - 1), !.B = ZAdd(@, ZMul(x.D, ConjErr(x.lvl)))]
    [] E.op = "mux" ->
         [x EXCEPT !.M = IF E.beta = 1 THEN VAut(@, RotG(E.j)) ELSE VZero(NN),
                   !.B = ZAdd(IF E.beta = 1 THEN @ ELSE "0", ZMul(x.D, MuxErr(x.lvl)))]

CanonOk(x, ct, mo) == /\ mo = QsAt(x.lvl) /\ Len(ct) = x.sz
                      /\ \A j \in 1..Len(ct) : Canonical(ct[j], QsAt(x.lvl))
Near(x, ph) == VNear(VScale(x.D, ph), x.M, ZMul(x.D, QAt(x.lvl)), x.B)
Holds(x, ct, what) ==
  << <<what \o ": level, moduli and residues are those of the program's state", CanonOk(x, ct, E.mo)>>,
     <<what \o ": the ciphertext decrypts to the program's value within the tracked error",
        CanonOk(x, ct, E.mo) => Near(x, PhaseT(ct, QsAt(x.lvl), WAt(x.lvl), S))>> >>
\* a register that is the target of two tracked values keeps the last
CStep == LET x == Rule IN Holds(x, E.out, "after " \o E.op)
CDump == Holds(reg[E.d], E.out, "at the end of the program")
CDec ==
  LET x == reg[E.d]  qs == QsAt(x.lvl) IN
  << <<"decrypting a register of the program returns its value within the tracked error",
        /\ E.mo = qs /\ Canonical(E.out, qs)
        /\ Near(x, Lift(E.out, qs))>> >>
\* the check has teeth only while the tracked error is below half the modulus
Sharp == LET x == Rule IN ZLt(ZMul("2", x.B), ZMul(x.D, QAt(x.lvl)))

Clauses == CASE E.e = "pstep" -> CStep [] E.e = "pdump" -> CDump [] E.e = "pdec" -> CDec
             [] E.e = "raise" -> Raised(E)
             [] E.e \in {"pbegin", "end"} -> <<>>
Init == l = 1 /\ ctx = <<>> /\ reg = <<>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ Judge(l, Clauses)
        /\ ctx' = IF E.e = "pbegin" THEN E ELSE ctx
        /\ reg' = IF E.e = "pbegin" THEN [r \in 1..E.nregs |-> [lvl |-> 0, sz |-> 0, M |-> <<>>, D |-> "1", B |-> "0"]]
                  ELSE IF E.e = "pstep" THEN [reg EXCEPT ![E.d] = Rule] ELSE reg
        /\ (E.e = "pstep" /\ Has(E, "dbg")) => PrintT(<<"SHARP", E.op, Sharp>>)
Spec == Init /\ [][Next]_<<l, ctx, reg>>
=============================================================================
