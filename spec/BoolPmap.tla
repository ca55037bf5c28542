------------------------------ MODULE BoolPmap ------------------------------
(***************************************************************************)
(* Parallel batches.  A batch of requests is handed to lanes (devices);    *)
(* lanes finish in any order; the batch result is the lane-indexed vector. *)
(* Deterministic: whatever the completion order, lane i holds the value of *)
(* request i.                                                              *)
(***************************************************************************)
EXTENDS Bool, Json
CONSTANTS Lanes, Random, Tts, Batches, NIn
VARIABLES vals, reqs, res, hist, cnt
vars == <<vals, reqs, res, hist, cnt>>
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Bits(n) == [1..n -> {0, 1}]
Req(n, t) == [a : [1..n -> 1..Len(vals)], tt : t]
Init == /\ vals \in Pick(Bits(IF Random THEN 5 ELSE 2))
        /\ reqs = <<>> /\ res = <<>> /\ cnt = 0
        /\ hist = [i \in 1..Len(vals) |-> [s |-> 1, op |-> "encrypt", v |-> vals[i]]]
RandReq(n) == [a |-> [i \in 1..n |-> RandomElement(1..Len(vals))], tt |-> RandomElement(IF n = 2 THEN 0..15 ELSE 0..255)]
Submit == /\ reqs = <<>> /\ cnt < Batches
          /\ \E n \in Pick(NIn), k \in Pick(1..Lanes) :
               IF Random THEN reqs' = [i \in 1..k |-> RandReq(n)]
               ELSE reqs' \in [1..k -> Req(n, Tts)]
          /\ res' = [i \in 1..Len(reqs') |-> -1]
          /\ cnt' = cnt + 1 /\ UNCHANGED <<vals, hist>>
Value(r) == IF Len(r.a) = 2 THEN Lut2Val(r.tt, vals[r.a[1]], vals[r.a[2]])
            ELSE Lut3Val(r.tt, vals[r.a[1]], vals[r.a[2]], vals[r.a[3]])
Finish == /\ reqs # <<>>
          /\ \E i \in Pick({i \in 1..Len(reqs) : res[i] = -1} \cup {0}) :
               IF i = 0 THEN UNCHANGED vars
               ELSE res' = [res EXCEPT ![i] = Value(reqs[i])] /\ UNCHANGED <<vals, reqs, hist, cnt>>
OpOf == [s |-> 1, op |-> IF Len(reqs[1].a) = 2 THEN "pmap2" ELSE "pmap3", reqs |-> reqs]
Collect == /\ reqs # <<>> /\ \A i \in 1..Len(res) : res[i] # -1
           /\ vals' = vals \o res /\ hist' = Append(hist, OpOf)
           /\ reqs' = <<>> /\ res' = <<>> /\ UNCHANGED cnt
\* a sequential gate between batches, on any register
Seq1 == /\ reqs = <<>> /\ Random /\ cnt < Batches /\ Len(hist) < 24
        /\ \E o \in {[s |-> 1, op |-> RandomElement({"not", "xor", "lut3"}),
                     a |-> [i \in 1..3 |-> RandomElement(1..Len(vals))], tt |-> RandomElement(0..255)]} :
              hist' = Append(hist, [o EXCEPT !.a = SubSeq(@, 1, IF o.op = "not" THEN 1 ELSE IF o.op = "xor" THEN 2 ELSE 3)])
              /\ vals' = Append(vals, OpVal(o, vals))
        /\ UNCHANGED <<reqs, res, cnt>>
Emit == /\ Random /\ cnt = Batches /\ reqs = <<>>
        /\ PrintT("GEN|" \o ToJson([ops |-> hist])) /\ cnt' = cnt + 1 /\ UNCHANGED <<vals, reqs, res, hist>>
Spec == Init /\ [][Submit \/ Seq1 \/ Finish \/ Collect \/ Emit]_vars
\* every result register equals the batch operator applied to the registers before it
Replay ==
  LET RECURSIVE go(_, _)
      go(h, vs) == IF h = <<>> THEN vs
                   ELSE go(Tail(h), vs \o OpVals(Head(h), vs))
  IN go(hist, <<>>) = vals
=============================================================================
