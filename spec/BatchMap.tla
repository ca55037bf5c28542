------------------------------ MODULE BatchMap ------------------------------
(***************************************************************************)
(* batch_vmap: a function mapped over n elements by a loop over full       *)
(* batches of size b followed by one call on the remaining tail.  Elements *)
(* are consumed strictly in order; AtEnd says the result is the map of all *)
(* n elements, each evaluated exactly once, whatever n and b.              *)
(* Bug = "tail" forgets the tail, "order" puts the tail first.             *)
(* Random = TRUE generates calls: sizes, function kind, axis of every      *)
(* argument (99: not mapped) and of every output, ranks.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, MaxB, Random, Bug
VARIABLES n, b, done, out, tail, phase
vars == <<n, b, done, out, tail, phase>>
Init == /\ n = 0 /\ b = 1 /\ done = 0 /\ out = <<>> /\ tail = <<>>
        /\ phase = IF Random THEN "gen" ELSE "start"
Start == /\ phase = "start" /\ n' \in 0..MaxN /\ b' \in 1..MaxB /\ phase' = "loop" /\ UNCHANGED <<done, out, tail>>
Run(lo, hi) == [i \in 1..(hi - lo) |-> lo + i]
Loop == /\ phase = "loop" /\ done + b <= n
        /\ out' = out \o Run(done, done + b) /\ done' = done + b /\ UNCHANGED <<n, b, tail, phase>>
Tail_ == /\ phase = "loop" /\ done + b > n
         /\ tail' = IF Bug = "tail" THEN <<>> ELSE Run(done, n)
         /\ done' = n /\ phase' = "join" /\ UNCHANGED <<n, b, out>>
Join == /\ phase = "join" /\ out' = IF Bug = "order" THEN tail \o out ELSE out \o tail
        /\ phase' = "end" /\ UNCHANGED <<n, b, done, tail>>
One(S) == RandomElement(S)
Leaves == [sum |-> 1, lin2 |-> 2, tree |-> 3, three |-> 3]
Outs == [sum |-> 1, lin2 |-> 1, tree |-> 2, three |-> 1]
Gen == /\ phase = "gen"
       /\ \E k \in {One(DOMAIN Leaves)}, r \in {One(0..2)}, m \in {One(0..MaxN)}, z \in {One(1..MaxB)}, u \in {One(1..3)} :
          \E ax \in {[i \in 1..Leaves[k] |-> One((-(r + 1))..r)]}, oa \in {[i \in 1..Outs[k] |-> One(IF k = "sum" THEN -1..0 ELSE (-(r + 1))..r)]} :
            PrintT("GEN|" \o ToJson([kind |-> k, rank |-> r, n |-> m, b |-> z, sh |-> [i \in 1..r |-> One(1..3)],
                      \* at least one argument stays mapped; a tree argument is mapped as a whole
                      ax |-> IF u = 1 /\ k = "lin2" THEN <<ax[1], 99>>
                             ELSE IF u = 1 /\ k = "three" THEN <<99, ax[2], 99>>
                             ELSE IF u = 2 /\ k = "three" THEN <<ax[1], 99, ax[3]>>
                             ELSE IF u = 1 /\ k = "tree" THEN <<ax[1], ax[2], 99>>
                             ELSE IF u = 2 /\ k = "tree" THEN <<99, 99, ax[3]>>
                             ELSE IF u = 3 THEN [i \in 1..Leaves[k] |-> ax[1]] ELSE ax,
                      oa |-> oa, form |-> One(1..4)]))
       /\ phase' = "generated" /\ UNCHANGED <<n, b, done, out, tail>>
Next == Start \/ Loop \/ Tail_ \/ Join \/ Gen
Spec == Init /\ [][Next]_vars
AtEnd == phase = "end" => out = [i \in 1..n |-> i]
InOrder == \A i \in 1..Len(out) : phase = "loop" => out[i] = i
=============================================================================
