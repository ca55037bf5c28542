----------------------------- MODULE CkksTrace -----------------------------
(* Judges events recorded from jaxite_ckks.  Polynomials arrive in transform *)
(* form (per modulus, evaluations in bit-reversed order at the odd powers of *)
(* the roots w) unless a clause says otherwise.                              *)
EXTENDS Ckks, TraceIO
VARIABLES l, mem      \* mem: memo of kernel applications / RNS registers

E == Trace[l]
NQ == Len(E.qs)
AllQ == E.qs \o E.pp
QQ == QOf(E.qs)
PP == QOf(E.pp)
CanonAll(ct, qs) == \A j \in 1..Len(ct) : Canonical(ct[j], qs)
TabsB(z, bits) == ZDiv(z, ZPow2(bits))

\* ------------------------------------------------------------- P12
\* |component| tolerance for an encoded slot: N/2 rounding + float error
CEncode ==
  LET n == E.n
      cf == VCenter(Value(E.pt, E.qs, E.w), QQ)
      sl == Slots(cf)
      mx == ZMax({ZAbs(E.v[j][t]) : j \in 1..Len(E.v), t \in 1..2} \cup {"0"})
      want(j, t) == IF j + 1 <= Len(E.v) THEN ZMul(ZMul(E.sc, E.v[j + 1][t]), ZPow2(FB - E.vb)) ELSE "0"
      tol == ZAdd(ZMul(ONE, ZOf((n \div 2) + 1)),
                  ZDiv(ZMul(ZMul(ZMul(E.sc, mx), ZOf(n)), ZPow2(FB - E.vb)), ZPow2(44)))
  IN << <<"encoded plaintext is canonical over the given moduli", Canonical(E.pt, E.qs)>>,
        <<"slot j of the encoded polynomial is scale * v_j (0 beyond the input) within rounding",
           Canonical(E.pt, E.qs) =>
           \A j \in 0..((n \div 2) - 1), t \in 1..2 : ZLe(ZAbs(ZSub(sl[j][t], want(j, t))), tol)>> >>
CDecode ==
  LET n == Len(E.a)
      sl == Slots(E.a)
      mx == ZMax({ZAbs(E.a[k]) : k \in 1..n})
      tol == ZAdd(ZMul(E.sc, ZPow2(FB - E.vb + 1)), ZAdd(ONE, ZDiv(ZMul(ZMul(ZOf(n), mx), ONE), ZPow2(42))))
  IN << <<"decode returns the requested number of slots", Len(E.out) = E.num>>,
        <<"decoded slot j is the embedding of the centred polynomial divided by the scale",
           \A j \in 1..Len(E.out), t \in 1..2 :
             ZLe(ZAbs(ZSub(ZMul(ZMul(E.sc, E.out[j][t]), ZPow2(FB - E.vb)), sl[j - 1][t])), tol)>> >>
CRoundTrip ==
  << <<"decode(encode(v)) = v within N/scale per slot (and double precision)",
        LET mx == ZMax({ZAbs(E.v[j][t]) : j \in 1..Len(E.v), t \in 1..2} \cup {"0"})
            fl == ZDiv(ZMul(ZMul(mx, ZOf(E.n)), E.sc), ZPow2(44))
        IN \A j \in 1..Len(E.out), t \in 1..2 :
          LET d == ZSub(E.out[j][t], IF j <= Len(E.v) THEN E.v[j][t] ELSE "0") IN
          ZLe(ZMul(ZAbs(d), E.sc), ZAdd(ZAdd(ZMul(ZOf(E.n), ZPow2(E.vb)), ZMul("2", E.sc)), fl))>> >>

\* ------------------------------------------------------------- P13
CKeygen ==
  << <<"secret key is the same small polynomial modulo every modulus",
        E.sk = [m \in 1..NQ |-> NttEval(E.s, E.qs[m], E.w[m])] /\ \A k \in 1..Len(E.s) : E.s[k] \in {-1, 0, 1}>>,
     <<"requested Hamming weight", E.hw >= 0 => SumAbs(E.s) = E.hw>>,
     <<"public key is canonical with phase equal to a small noise",
        CanonAll(E.pk, E.qs) /\ VNear(PhaseT(E.pk, E.qs, E.w, E.s), VZero(Len(E.s)), QQ, ZOf(E.E))>> >>
CExtend ==
  << <<"extended secret key is the same polynomial modulo every target modulus",
        E.sk = [m \in 1..NQ |-> NttEval(E.s, E.qs[m], E.w[m])]>> >>
CEnc ==
  << <<"ciphertext is canonical over the plaintext moduli", Len(E.ct) = 2 /\ CanonAll(E.ct, E.qs) /\ E.mo = E.qs>>,
     <<"phase of an encryption is the plaintext up to encryption noise",
        VNear(PhaseT(E.ct, E.qs, E.w, E.s), Value(E.pt, E.qs, E.w), QQ, EncBound(Len(E.s), E.E, E.s))>> >>
CDecrypt ==
  << <<"decryption is canonical over the ciphertext moduli", Canonical(E.out, E.qs) /\ E.mo = E.qs>>,
     <<"decryption is the phase of the ciphertext", Lift(E.out, E.qs) = PhaseT(E.ct, E.qs, E.w, E.s)>> >>
CAdd ==
  << <<"addition kernel " \o E.kind,
        \A i \in 1..Len(E.a) :
           E.out[i] = IF E.kind = "simple" THEN ZAdd(E.a[i], E.b[i])
                      ELSE ZMod(ZAdd(E.a[i], E.b[i]), E.m[i])>> >>
\* ------------------------------------------------------------- P14
CNtt ==
  << <<"root is a primitive 2N-th root of unity", PowMod(E.w, Len(E.x), E.q) = E.q - 1>>,
     <<"transform result (" \o E.kind \o ")",
        E.out = IF E.dir = "fwd" THEN NttEval(E.x, E.q, E.w) ELSE NttInterp(E.x, E.q, E.w)>> >>
CRoot == << <<"root_of_unity returns the least primitive root", E.out = MinRoot(E.m, E.q)>> >>
CBrev == << <<"bit-reversal permutation", E.out = [i \in 1..E.n |-> BitRevDef(i - 1, Log2(E.n))]>> >>
CNttNat ==  \* reference transform in natural order
  << <<"natural-order transform evaluates at psi^(2k+1)",
        LET n == Len(E.x)  ev == NttEval(E.x, E.q, E.w) IN
        E.out = [k \in 1..n |-> ev[BitRevDef(k - 1, Log2(n)) + 1]]>> >>
\* ------------------------------------------------------------- P16
CBarrett ==
  << <<"Barrett reduction returns z mod m", \A i \in 1..Len(E.z) : E.out[i] = ZMod(E.z[i], E.m)>> >>
CBconv ==
  << <<"basis conversion returns the residues of x + u*Q with one u < number of source moduli",
        \A i \in 1..Len(E.x) : BconvOk(E.x[i], E.qs, E.out[i], E.pt)>> >>
CCrt == << <<"CRT reconstruction", \A i \in 1..Len(E.out) :
              E.out[i] = ZCrt([m \in 1..NQ |-> E.rs[m][i]], ZS(E.qs))>> >>
CLiftCt ==
  << <<"lifting keeps the residues modulo Q and extends every coefficient to x + u*Q",
       \A j \in 1..Len(E.ct) :
         LET c == ToResidues(E.ct[j], E.qs, E.w)
             o == ToResidues(SubSeq(E.out[j], NQ + 1, Len(E.out[j])), E.pp, E.wp)
         IN /\ SubSeq(E.out[j], 1, NQ) = E.ct[j]
            /\ Canonical(SubSeq(E.out[j], NQ + 1, Len(E.out[j])), E.pp)
            /\ \A k \in 1..Len(c[1]) : BconvOk([m \in 1..NQ |-> c[m][k]], E.qs,
                                               [m \in 1..Len(E.pp) |-> o[m][k]], E.pp)>> >>
CQhat ==
  << <<"qhat inverse and qhat tables",
       \A i \in 1..NQ :
         LET hat == ZDiv(QQ, ZOf(E.qs[i])) IN
         /\ ZMod(ZMul(hat, E.inv[i]), ZOf(E.qs[i])) = "1"
         /\ \A j \in 1..Len(E.pp) : E.hat[i][j] = ZMod(hat, ZOf(E.pp[j]))>> >>
\* ------------------------------------------------------------- P17
Rem == SubSeq(E.qs, 1, NQ - E.num)
WRem == SubSeq(E.w, 1, NQ - E.num)
CRescale ==
  << <<"rescaled ciphertext has the remaining prefix of moduli and canonical residues",
        E.mo = Rem /\ Len(E.out) = Len(E.ct) /\ CanonAll(E.out, Rem)>>,
     <<"every coefficient is divided by the dropped moduli, rounded to nearest",
        (Len(E.out) = Len(E.ct) /\ CanonAll(E.out, Rem)) =>
        \A j \in 1..Len(E.ct) : RescaleOk(Value(E.ct[j], E.qs, E.w), Value(E.out[j], Rem, WRem), E.qs, E.num)>> >>
\* ------------------------------------------------------------- P18
CKsk ==
  LET parts == Parts(NQ, E.dnum) IN
  << <<"key-switching key has dnum canonical rows over Q*P",
        Len(E.a) = E.dnum /\ Len(E.b) = E.dnum /\ CanonAll(E.a, AllQ) /\ CanonAll(E.b, AllQ) /\ E.mo = AllQ>>,
     <<"row i encrypts P * source key in its own partition and zero elsewhere",
        \A i \in 1..E.dnum :
          LET own == IF i <= Len(parts) THEN Range(parts[i]) ELSE {}
              tgt == [m \in 1..Len(AllQ) |->
                        IF m \in own THEN [k \in 1..Len(E.s) |-> MulMod(E.src[m][k], ZInt(ZMod(PP, ZOf(AllQ[m]))), AllQ[m])]
                        ELSE [k \in 1..Len(E.s) |-> 0]]
              row == [m \in 1..Len(AllQ) |-> VecSubMod(E.b[i][m], tgt[m], AllQ[m])]
          IN VNear(PhaseT(<<row, E.a[i]>>, AllQ, E.w, E.s), VZero(Len(E.s)), QOf(AllQ), ZOf(E.E))>> >>
\* value of c0 + c1*src mod Q
SrcPhase(ct, src, qs, w) ==
  Value([m \in 1..Len(qs) |-> VecAddMod(ct[1][m], VecMulMod(ct[2][m], src[m], qs[m]), qs[m])], qs, w)
CKs ==
  << <<"switched ciphertext is canonical over Q*P", Len(E.out) = 2 /\ CanonAll(E.out, AllQ) /\ E.mo = AllQ>>,
     <<"switched ciphertext decrypts to P * (c0 + c1 * source key) within gadget noise",
        (Len(E.out) = 2 /\ CanonAll(E.out, AllQ)) =>
        VNear(PhaseT(E.out, AllQ, E.w, E.s), VScale(PP, SrcPhase(E.ct, E.src, E.qs, E.w)), QOf(AllQ),
              KsBound(Len(E.s), E.qs, E.dnum, E.E))>> >>
\* ------------------------------------------------------------- P19
CPtMul ==
  << <<"plaintext product (" \o E.kind \o ") is the exact pointwise product",
        E.out = [j \in 1..Len(E.ct) |-> [m \in 1..NQ |->
                   IF E.kind = "simple"
                   THEN [k \in 1..Len(E.pt[m]) |-> ZMul(E.ct[j][m][k], E.pt[m][k])]
                   ELSE VecMulMod(E.ct[j][m], E.pt[m], E.qs[m])]]>>,
     <<"result carries the ciphertext moduli", E.mo = E.qs>> >>
CTensor ==
  << <<"tensor product is exact modulo every modulus",
        E.out = << [m \in 1..NQ |-> VecMulMod(E.a[1][m], E.b[1][m], E.qs[m])],
                   [m \in 1..NQ |-> VecAddMod(VecMulMod(E.a[1][m], E.b[2][m], E.qs[m]),
                                              VecMulMod(E.a[2][m], E.b[1][m], E.qs[m]), E.qs[m])],
                   [m \in 1..NQ |-> VecMulMod(E.a[2][m], E.b[2][m], E.qs[m])] >> >>,
     <<"result carries the ciphertext moduli", E.mo = E.qs>> >>
RelinBound(n, qs, pp, dnum, noise, s) ==
  ZAdd(KsBound(n, qs, dnum, noise), DownBound(QOf(pp), Len(pp), s))
CRelin ==
  << <<"relinearised ciphertext has two canonical components over the same moduli",
        Len(E.out) = 2 /\ CanonAll(E.out, E.qs) /\ E.mo = E.qs>>,
     <<"relinearisation keeps the phase within gadget noise / P and rounding",
        (Len(E.out) = 2 /\ CanonAll(E.out, E.qs)) =>
        VNear(VScale(PP, PhaseT(E.out, E.qs, E.w, E.s)), VScale(PP, PhaseT(E.ct, E.qs, E.w, E.s)),
              ZMul(PP, QQ), RelinBound(Len(E.s), E.qs, E.pp, E.dnum, E.E, E.s))>> >>
\* ------------------------------------------------------------- P20, P21
\* conjugation / selected rotation: P*phase(out) = P * want within key switching noise and rounding by P
SwitchedOk(out, want, ks) ==
  VNear(VScale(PP, PhaseT(out, E.qs, E.w, E.s)), VScale(PP, want), ZMul(PP, QQ), ks)
CConj ==
  << <<"conjugated ciphertext is canonical at the input level", Len(E.out) = 2 /\ CanonAll(E.out, E.qs) /\ E.mo = E.qs>>,
     <<"conjugation maps the phase to its image under X -> X^-1",
        (Len(E.out) = 2 /\ CanonAll(E.out, E.qs)) =>
        SwitchedOk(E.out, VAut(PhaseT(E.ct, E.qs, E.w, E.s), 2 * Len(E.s) - 1),
                   ZAdd(KsBound(Len(E.s), E.qs, E.dnum, E.E), RoundBound(PP, E.s)))>> >>
CAut == << <<"automorphism in transform form is X -> X^g",
             \A j \in 1..Len(E.x) :
               VSame(Value(E.out[j], E.qs, E.w), VAut(Value(E.x[j], E.qs, E.w), E.g), QQ)>> >>
RotG(j, n) == OddInv(PowModDef(5, j, 2 * n), 2 * n)     \* 5^-j mod 2n
HmuxBound == ZAdd(ZMul("2", KsBound(Len(E.s), E.qs, 1, E.E)), RoundBound(PP, E.s))
CHmuxKey ==
  << <<"mux-rotation key encrypts P*beta*s(X^(5^-j)) and P*beta",
        LET n == Len(E.s)
            pb == ZMul(PP, ZOf(E.beta))
            srot == VAut(ZS(E.s), RotG(E.j, n))
            one == [k \in 1..n |-> IF k = 1 THEN "1" ELSE "0"]
        IN /\ CanonAll(E.key0, AllQ) /\ CanonAll(E.key1, AllQ)
           \* the scaled source key lives modulo Q (it is zero modulo P anyway)
           /\ VNear(PhaseT(E.key0, AllQ, E.w, E.s), VScale(pb, srot), QOf(AllQ), ZOf(E.E))
           /\ VNear(PhaseT(E.key1, AllQ, E.w, E.s), VScale(pb, one), QOf(AllQ), ZOf(E.E))>> >>
CHmux ==
  << <<"hmuxrot output is canonical at the input level", Len(E.out) = 2 /\ CanonAll(E.out, E.qs) /\ E.mo = E.qs>>,
     <<"hmuxrot yields beta * rotated phase",
        (Len(E.out) = 2 /\ CanonAll(E.out, E.qs)) =>
        SwitchedOk(E.out, VScale(ZOf(E.beta), VAut(PhaseT(E.ct, E.qs, E.w, E.s), RotG(E.j, Len(E.s)))), HmuxBound)>> >>
RotAmount == SumI([k \in 1..Len(E.bits) |-> E.bits[k] * 2^(k - 1)]) * E.stride
CMux ==
  << <<"mux blind rotation output is canonical at the input level", Len(E.out) = 2 /\ CanonAll(E.out, E.qs) /\ E.mo = E.qs>>,
     <<"mux blind rotation rotates by exactly the encrypted amount",
        (Len(E.out) = 2 /\ CanonAll(E.out, E.qs)) =>
        SwitchedOk(E.out, VAut(PhaseT(E.ct, E.qs, E.w, E.s), RotG(RotAmount, Len(E.s))),
                   ZMul(ZOf(2 * Len(E.bits)), HmuxBound))>> >>
CCm ==
  << <<"column-method output is canonical at the next level", E.mo = Rem /\ Len(E.out) = 2 /\ CanonAll(E.out, Rem)>>,
     <<"column method returns the sum of plaintext times key, divided by the dropped modulus",
        (Len(E.out) = 2 /\ CanonAll(E.out, Rem)) =>
        LET D == QOf(SubSeq(E.qs, NQ - E.num + 1, NQ))
            n == Len(E.s)
            RECURSIVE tot(_)
            tot(i) == IF i = 0 THEN VZero(n)
                      ELSE VAdd(tot(i - 1), VMul(PhaseT(E.cts[i], E.qs, E.w, E.s), Value(E.pts[i], E.qs, E.w)))
        IN VNear(VScale(D, PhaseT(E.out, Rem, WRem, E.s)), tot(Len(E.cts)), QQ, RoundBound(D, E.s))>> >>
CCmKeys ==
  << <<"column key (i, j) encrypts the scaled indicator of i = j",
        \A i \in 1..Len(E.keys), j \in 1..Len(E.keys) :
          LET n == Len(E.s) IN
          VNear(PhaseT(E.keys[i][j], E.qs, E.w, E.s),
                [k \in 1..n |-> IF k = 1 /\ i = j THEN E.sc ELSE "0"], QQ,
                ZAdd(EncBound(n, E.E, E.s), "1"))>> >>

\* ------------------------------------------------------------- P22
(* A kernel application is a function of (kernel, level, arguments): the    *)
(* memo holds the first result for each key; every later application, by    *)
(* whatever route (eager, jit, after flatten/unflatten, after other calls), *)
(* must return it, and may not change its arguments.                        *)
Known(k) == \E i \in 1..Len(mem) : mem[i][1] = k
ResultOf(k) == mem[CHOOSE i \in 1..Len(mem) : mem[i][1] = k][2]
CApply ==
  << <<"a kernel gives the same result for the same arguments (" \o E.how \o ")",
        Known(E.key) => ResultOf(E.key) = E.out>>,
     <<"kernel arguments are left unchanged (" \o E.how \o ")", E.before = E.after>> >>
Mem2 == IF E.e = "apply" /\ ~Known(E.key) THEN Append(mem, <<E.key, E.out>>)
        ELSE IF E.e = "forget" THEN <<>> ELSE mem

Clauses ==
  CASE E.e = "encode" -> CEncode [] E.e = "decode" -> CDecode [] E.e = "roundtrip" -> CRoundTrip
    [] E.e = "keygen" -> CKeygen [] E.e = "extend" -> CExtend [] E.e = "enc" -> CEnc [] E.e = "decrypt" -> CDecrypt
    [] E.e = "add" -> CAdd
    [] E.e = "ntt" -> CNtt [] E.e = "root" -> CRoot [] E.e = "brev" -> CBrev [] E.e = "nttnat" -> CNttNat
    [] E.e = "barrett" -> CBarrett [] E.e = "bconv" -> CBconv [] E.e = "crt" -> CCrt
    [] E.e = "lift" -> CLiftCt [] E.e = "qhat" -> CQhat
    [] E.e = "rescale" -> CRescale
    [] E.e = "ksk" -> CKsk [] E.e = "ks" -> CKs
    [] E.e = "ptmul" -> CPtMul [] E.e = "tensor" -> CTensor [] E.e = "relin" -> CRelin
    [] E.e = "conj" -> CConj [] E.e = "aut" -> CAut [] E.e = "hmuxkey" -> CHmuxKey
    [] E.e = "hmux" -> CHmux [] E.e = "mux" -> CMux [] E.e = "cm" -> CCm [] E.e = "cmkeys" -> CCmKeys
    [] E.e = "apply" -> CApply
    [] E.e = "raise" -> Raised(E)
    [] E.e = "reject" -> << <<"invalid arguments are rejected: " \o E.what, ~E.ok>> >>
    [] E.e \in {"end", "forget"} -> <<>>

Init == l = 1 /\ mem = <<>>
Next == l <= Len(Trace) /\ Judge(l, Clauses) /\ l' = l + 1 /\ mem' = Mem2
Spec == Init /\ [][Next]_<<l, mem>>
=============================================================================
