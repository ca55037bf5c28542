-------------------------------- MODULE Rng --------------------------------
(***************************************************************************)
(* Random sources as state machines: a source is a position in a fixed     *)
(* stream determined by its seed and the sequence of draw kinds; a call of *)
(* any shape consumes prod(shape) consecutive draws.                       *)
(* The abstract stream value at a position is a term <<seed, kinds so far>>*)
(* so two sources agree exactly when seed and flattened kinds agree.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxCalls, Random, Kinds, Shapes
VARIABLES calls, flat, out
vars == <<calls, flat, out>>
Srcs == {1, 2}
Pick(S) == S
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
RECURSIVE Rept(_, _)
Rept(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Rept(x, n - 1)
Init == calls = <<>> /\ flat = [s \in Srcs |-> <<>>] /\ out = [s \in Srcs |-> <<>>]
\* one call: the values delivered are the next prod(shape) stream elements
Call(s, k, sh) ==
  /\ Len(calls) < MaxCalls
  /\ calls' = Append(calls, [src |-> s, kind |-> k, shape |-> sh])
  /\ flat' = [flat EXCEPT ![s] = @ \o Rept(k, Prod(sh))]
  /\ out' = IF Random THEN out
            ELSE [out EXCEPT ![s] = @ \o [i \in 1..Prod(sh) |-> SubSeq(flat'[s], 1, Len(flat[s]) + i)]]
Next == \E s \in Pick(Srcs), k \in Pick(Kinds), sh \in Pick(Shapes) : Call(s, k, sh)
Emit == Random /\ Len(calls) = MaxCalls /\ PrintT("GEN|" \o ToJson([calls |-> calls]))
        /\ calls' = Append(calls, "done") /\ UNCHANGED <<flat, out>>
Spec == Init /\ [][Next \/ Emit]_vars
\* the history seen by a client depends only on the flattened kinds
Regroup == Random \/ \A s \in Srcs : out[s] = [i \in 1..Len(flat[s]) |-> SubSeq(flat[s], 1, i)]
NoRestart == Random \/ \A s \in Srcs : \A i, j \in 1..Len(out[s]) : i # j => out[s][i] # out[s][j]
=============================================================================
