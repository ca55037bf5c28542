------------------------------- MODULE Noise -------------------------------
(* Noise of gate bootstrapping as a function of the parameters, in exact     *)
(* integer arithmetic on variances (Z numerals).  A parameter record p has   *)
(*   n      LWE dimension              k, N   RLWE rank and degree           *)
(*   lb, L  bootstrapping decomposition: log of the base, levels             *)
(*   klb, kL  key switching decomposition                                    *)
(*   vl, vr variance of fresh LWE and RLWE noise (Z numerals)                *)
(* Messages have three bits below one padding bit in a 32-bit torus.         *)
(* The design below builds circuits: registers are fresh encryptions or gate *)
(* results, a gate may take the same register several times, and every gate  *)
(* must keep its error at the blind rotation Sigmas standard deviations      *)
(* below half an encoding block.                                             *)
EXTENDS Arith
CONSTANTS Preset, Sigmas, MaxOps, Keys

Z(i) == ZOf(i)
ZSq(a) == ZMul(a, a)
RECURSIVE ZSum(_)
ZSum(s) == IF s = <<>> THEN "0" ELSE ZAdd(Head(s), ZSum(Tail(s)))

HalfBlock == ZPow2(27)
\* second moment, times six, of an unsigned digit below 2^b; times twelve, of a signed one
Uns6(b) == ZMul(ZSub(ZPow2(b), "1"), ZSub(ZPow2(b + 1), "1"))
Sgn12(b) == ZAdd(ZPow2(2 * b), "2")
Pairs(p) == (p.n + 1) \div 2
\* blind rotation: two key bits per step, three bundled RGSW encryptions each entering twice
VRot(p) == ZMul(ZProdSeq(<<Z(Pairs(p)), Z(p.k + 1), Z(p.L), Z(p.N), Uns6(p.lb)>>), p.vr)
\* key switching from the extracted key of k N bits
VSwitch(p) == ZDiv(ZMul(ZProdSeq(<<Z(p.k * p.N), Z(p.kL), Sgn12(p.klb)>>), p.vl), "12")
\* what approximate decompositions drop: the bits below the last level
RestBits(b, l) == IF b * l >= 32 THEN -1 ELSE 32 - b * l
VDrop(p) == ZAdd(IF RestBits(p.lb, p.L) < 0 THEN "0" ELSE ZSq(ZMul(Z(p.k * p.N), ZPow2(RestBits(p.lb, p.L)))),
                 IF RestBits(p.klb, p.kL) < 0 THEN "0" ELSE ZMul(Z(p.k * p.N), ZPow2(2 * RestBits(p.klb, p.kL))))
VGate(p) == ZSum(<<VRot(p), VSwitch(p), VDrop(p)>>)
\* rounding n+1 coordinates to multiples of 2^32 / 2N under a binary key of weight n/2
VModSwitch(p) == ZDiv(ZMul(Z(p.n + 2), ZPow2(2 * (31 - Log2(p.N)))), "24")
\* a gate on registers of variance v with integer weights w: equal registers add up before squaring
Weighted(ws, vs) == ZSum([i \in 1..Len(ws) |-> ZMul(Z(ws[i] * ws[i]), vs[i])])
Fits(p, sigmas, v) == ZLe(ZMul(Z(sigmas * sigmas), ZAdd(v, VModSwitch(p))), ZSq(HalfBlock))
\* weights of the distinct registers among the (two or three) gate inputs
In2 == {<<1, 2>>, <<3>>}
In3 == {<<1, 2, 4>>, <<3, 4>>, <<5, 2>>, <<1, 6>>, <<7>>}

(* ------------------------------------------------------------------ design *)
VARIABLES reg, ok, cnt
vars == <<reg, ok, cnt>>
Fresh == Preset.vl
Max(a, b) == IF ZLt(a, b) THEN b ELSE a
Init == reg = [i \in 1..Keys |-> Fresh] /\ ok = TRUE /\ cnt = 0
Gate(in, d) == LET ws == [j \in 1..Keys |-> (IF in[1] = j THEN 1 ELSE 0) + (IF in[2] = j THEN 2 ELSE 0) + (IF in[3] = j THEN 4 ELSE 0)]
               IN /\ ok' = (ok /\ Fits(Preset, Sigmas, Weighted(ws, reg)))
                  /\ reg' = [reg EXCEPT ![d] = VGate(Preset)]
Next == /\ cnt < MaxOps /\ cnt' = cnt + 1
        /\ \/ \E d \in 1..Keys : reg' = [reg EXCEPT ![d] = Fresh] /\ ok' = ok
           \/ \E in \in (1..Keys) \X (1..Keys) \X (0..Keys) : \E d \in 1..Keys : Gate(in, d)
Spec == Init /\ [][Next]_vars
TypeOK == \A i \in 1..Keys : reg[i] \in {Fresh, VGate(Preset)}
NoErrors == ok
\* noise does not accumulate: a register never depends on the length of the history
Bounded == \A i \in 1..Keys : ZLe(reg[i], Max(Fresh, VGate(Preset)))

(* parameter sets for the model: cfg files hold no numerals above 2^31 *)
TestSet == [n |-> 4, k |-> 1, N |-> 512, lb |-> 4, L |-> 8, klb |-> 4, kL |-> 8, vl |-> "1", vr |-> "1"]
\* the published security level with a ring of degree 2048 and a finer key switch: gates keep their budget
Wide == [n |-> 800, k |-> 1, N |-> 2048, lb |-> 4, L |-> 6, klb |-> 2, kL |-> 10, vl |-> ZPow2(28), vr |-> ZPow2(2)]
Published == [n |-> 800, k |-> 2, N |-> 512, lb |-> 4, L |-> 6, klb |-> 4, kL |-> 5, vl |-> ZPow2(28), vr |-> ZPow2(16)]
=============================================================================
