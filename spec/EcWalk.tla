-------------------------------- MODULE EcWalk -------------------------------
(***************************************************************************)
(* Walks of point operations.  A register holds k * B for a base point B   *)
(* of large prime order (so k * B = j * B iff k = j for the small k here). *)
(* Complete = TRUE (twisted Edwards): every addition is defined.           *)
(* Complete = FALSE (XYZZ): an addition needs operands that are neither    *)
(* neutral, nor equal, nor opposite; a doubling needs a non-neutral one;   *)
(* Defined says no register ever holds the neutral element.                *)
(* Random = TRUE: generator of walks for the replay driver (K restricts    *)
(* nothing there but the size of the multiples).                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Regs, K, Complete, Random, MaxOps, Loads
VARIABLES reg, hist
vars == <<reg, hist>>
None == 1000
Log(x) == hist' = IF Random THEN Append(hist, x) ELSE hist
Live == {r \in Regs : reg[r] # None}
Init == reg = [r \in Regs |-> None] /\ hist = <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
Put(r, v) == Abs(v) <= K /\ reg' = [reg EXCEPT ![r] = v]
Load(r, v) == (Complete \/ v # 0) /\ Put(r, v) /\ Log([op |-> "load", r |-> r, k |-> v])
CanAdd(a, b) == Complete \/ (reg[a] # 0 /\ reg[b] # 0 /\ Abs(reg[a]) # Abs(reg[b]))
AddR(r, a, b) == CanAdd(a, b) /\ Put(r, reg[a] + reg[b]) /\ Log([op |-> "add", r |-> r, a |-> a, b |-> b])
Dbl(r, a) == (Complete \/ reg[a] # 0) /\ Put(r, 2 * reg[a]) /\ Log([op |-> "dbl", r |-> r, a |-> a])
Neg(r, a) == Complete /\ Put(r, -reg[a]) /\ Log([op |-> "neg", r |-> r, a |-> a])
Next == /\ Len(hist) < MaxOps
        /\ \/ \E r \in Regs, v \in Loads : (~Random \/ Cardinality(Live) < 2 \/ r = 1) /\ (Load(r, v) \/ Load(r, -v))
           \/ \E r \in Regs, a, b \in Live : AddR(r, a, b)
           \/ \E r \in Regs, a \in Live : Dbl(r, a) \/ Neg(r, a)
Emit == Random /\ Len(hist) = MaxOps /\ PrintT("GEN|" \o ToJson([ops |-> hist, complete |-> Complete]))
        /\ hist' = Append(hist, "done") /\ UNCHANGED reg
Spec == Init /\ [][Next \/ Emit]_vars
Defined == ~Complete => \A r \in Live : reg[r] # 0
=============================================================================
