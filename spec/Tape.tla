-------------------------------- MODULE Tape --------------------------------
(* Linear use of randomness in CKKS key generation and encryption.  A random *)
(* source is a tape of draws; every operation takes the draws it needs from  *)
(* the tape and puts each into exactly one place of its result: a mask, an   *)
(* error or a small secret.  No draw is in two places, whatever operations   *)
(* share the source and in whatever order.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, MaxParts, MaxBits, Random, Bug
VARIABLES pos, place, hist
vars == <<pos, place, hist>>
\* what an operation puts where: kinds of the slots of its result
Row == <<"uniform", "gaussian">>
RECURSIVE Rep(_, _)
Rep(n, s) == IF n = 0 THEN <<>> ELSE s \o Rep(n - 1, s)
Slots(o) == CASE o.op = "keygen" -> <<"secret">> \o Row
              [] o.op = "enc" -> <<"ternary", "gaussian", "gaussian">>
              [] o.op \in {"ksk", "relin", "conj"} -> Rep(o.dnum, Row)
              [] o.op = "hmux" -> Rep(2, Row)
              [] o.op = "mux" -> Rep(4 * Len(o.bits), Row)
\* the draw that slot i of an operation starting at position p takes
Take(p, o, i) == CASE Bug = "mask" /\ o.op = "ksk" /\ i > 2 /\ (i % 2) = 1 -> p + 1
                   [] Bug = "error" /\ o.op = "enc" /\ i = 3 -> p + 2
                   [] OTHER -> p + i
Do(o) == LET s == Slots(o) IN
         /\ place' = place \cup {[d |-> Take(pos, o, i), op |-> Len(hist) + 1, i |-> i] : i \in 1..Len(s)}
         /\ pos' = pos + Len(s) /\ hist' = Append(hist, o)
BitSeqs == UNION {[1..n -> {0, 1}] : n \in 1..MaxBits}
Ops == {[op |-> "keygen", hw |-> h] : h \in 0..2} \cup {[op |-> "enc", lev |-> v] : v \in 1..2}
       \cup {[op |-> o, dnum |-> d] : o \in {"ksk", "relin", "conj"}, d \in 1..MaxParts}
       \cup {[op |-> "hmux", beta |-> b, j |-> j] : b \in {0, 1}, j \in 0..2}
       \cup {[op |-> "mux", bits |-> b] : b \in BitSeqs}
One(S) == RandomElement(S)
Init == pos = 0 /\ place = {} /\ hist = <<>>
\* generated programs take the kinds of operation equally often
Pick(k) == {o \in Ops : o.op = k}
Next == \/ Len(hist) < MaxOps /\ IF Random THEN \E k \in {One({"enc", "enc2", "ksk", "relin", "conj", "hmux", "mux", "keygen"})} :
                                              \E o \in {One(Pick(IF k = "enc2" THEN "enc" ELSE k))} : Do(o)
                                 ELSE \E o \in Ops : Do(o)
        \/ Random /\ Len(hist) = MaxOps /\ PrintT("GEN|" \o ToJson([ops |-> hist]))
           /\ hist' = Append(hist, [op |-> "done"]) /\ UNCHANGED <<pos, place>>
Spec == Init /\ [][Next]_vars
Once == \A x, y \in place : x.d = y.d => x = y
Behind == \A x \in place : x.d <= pos
=============================================================================
