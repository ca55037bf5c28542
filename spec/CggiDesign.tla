------------------------------ MODULE CggiDesign ------------------------------
(***************************************************************************)
(* Exhaustive model of programmable bootstrapping on a toy torus.  A       *)
(* ciphertext is created with every mask, message and admissible noise,    *)
(* under every LWE key, and goes through the stages of bootstrap.bootstrap *)
(* one action at a time; the invariants are the stage obligations that the *)
(* trace specification demands of the real code.                           *)
(***************************************************************************)
EXTENDS Cggi
CONSTANTS LogN, Dim, MsgBits, LogB, Levels, Bmmp, MaxNoise, MaskStep, Luts

N == 2^LogN
P == [tot |-> LogQ, msg |-> MsgBits, pad |-> 1]
Keys == [1..Dim -> {0, 1}]
\* the (single) RLWE key and fixed masks of the bootstrapping key
RKey == << [i \in 1..N |-> IF i % 3 = 0 THEN 0 ELSE 1] >>
MaskOf(j, b, l) == << [i \in 1..N |-> (5 * j + 3 * b + 7 * l + 11 * i * i + i) % Q] >>
ZeroErr == [b \in 1..2 |-> [l \in 1..Levels |-> PZero(N)]]
Bsk(s) == LET bits == BskPlain(s, Bmmp)
          IN TLCEval([j \in 1..Len(bits) |->
               RgswEncrypt(bits[j], [b \in 1..2 |-> [l \in 1..Levels |-> MaskOf(j, b, l)]], ZeroErr, LogB, Levels, RKey)])
KskRow(v, i, l, s) == LET mask == [t \in 1..Dim |-> (13 * i + 5 * l + 3 * t) % Q]
                      IN Append(mask, TAdd(TDot(mask, s), TShl(v, LogQ - l * LogB)))
Ksk(s) == LET fk == Flatten(RKey)
          IN TLCEval([i \in 1..Len(fk) |-> [l \in 1..Levels |-> KskRow(fk[i], i, l, s)]])
BskOf == TLCEval([s \in Keys |-> Bsk(s)])
KskOf == TLCEval([s \in Keys |-> Ksk(s)])

AllLuts == [1..(2^MsgBits) -> 0..(2^MsgBits - 1)]

VARIABLES stage, s, m, lut, ct, acc, j
vars == <<stage, s, m, lut, ct, acc, j>>

Masks == {x \in 0..(Q - 1) : x % MaskStep = 0 \/ x % MaskStep = 1}
Init == /\ stage = "encrypted" /\ s \in Keys /\ m \in 0..(2^MsgBits - 1) /\ lut \in Luts
        /\ \E a \in [1..Dim -> Masks] : \E e \in -MaxNoise..MaxNoise :
             ct = Append(a, TAdd(TDot(a, s), TNorm(Encode(m, P) + e)))
        /\ acc = <<>> /\ j = 0

ModSwitchA == /\ stage = "encrypted" /\ stage' = "switched"
              /\ ct' = ModSwitch(ct, LogN + 1)
              /\ UNCHANGED <<s, m, lut, acc, j>>
StartRotate == /\ stage = "switched" /\ stage' = "rotating"
               /\ acc' = RlweMono(<<PZero(N), TestPoly(lut, P, N)>>, -Last(ct))
               /\ j' = 1 /\ UNCHANGED <<s, m, lut, ct>>
RotateA == /\ stage = "rotating" /\ j <= Dim
           /\ IF Bmmp
              THEN LET t == (j - 1) \div 2
                   IN acc' = RotStep2(acc, BskOf[s][3*t+1], BskOf[s][3*t+2], BskOf[s][3*t+3],
                                      ct[j], ct[j + 1], LogB, Levels)
              ELSE acc' = RotStep(acc, BskOf[s][j], ct[j], LogB, Levels)
           /\ j' = j + (IF Bmmp THEN 2 ELSE 1)
           /\ UNCHANGED <<stage, s, m, lut, ct>>
ExtractA == /\ stage = "rotating" /\ j > Dim /\ stage' = "extracted"
            /\ ct' = SampleExtract(acc) /\ acc' = <<>> /\ UNCHANGED <<s, m, lut, j>>
KeySwitchA == /\ stage = "extracted" /\ stage' = "done"
              /\ ct' = KeySwitch(KskOf[s], ct, LogB, Levels)
              /\ UNCHANGED <<s, m, lut, acc, j>>
Next == ModSwitchA \/ StartRotate \/ RotateA \/ ExtractA \/ KeySwitchA
Spec == Init /\ [][Next]_vars

(* stage obligations *)
SwitchedIndex == IF stage = "switched"
                 THEN LET d == (SwitchedPhase(ct, s, LogN + 1) - (m * 2 * N) \div 2^(MsgBits + 1)) % (2 * N)
                      IN d < N \div 2^(MsgBits + 1) \/ d >= 2 * N - N \div 2^(MsgBits + 1)
                 ELSE TRUE
\* the accumulator's phase is the test polynomial times X^-(b - sum_{i<j} a_i s_i)
AccPhase == stage = "rotating" =>
   RlwePhase(acc, RKey) =
     PMono(TestPoly(lut, P, N), -(Last(ct) - IDot(SubSeq(Front(ct), 1, j - 1), SubSeq(s, 1, j - 1))))
ExtractedMsg == stage = "extracted" => LwePhase(ct, Flatten(RKey)) = Encode(lut[m + 1], P)
Refreshed == stage = "done" =>
   /\ Len(ct) = Dim + 1
   /\ LwePhase(ct, s) = Encode(lut[m + 1], P)
   /\ Decode(LwePhase(ct, s), P) = lut[m + 1]
Terminates == stage # "done" => ENABLED Next
=============================================================================
