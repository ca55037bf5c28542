------------------------------- MODULE EcChain -------------------------------
(***************************************************************************)
(* Operation chains of the RNS field arithmetic.  A register is fresh, the *)
(* output of a multiplication, or the output of an accumulation; bounds    *)
(* are in units of 512 * (number of moduli) * p.  An accumulation takes up *)
(* to four terms, each fresh or a product, plain or negated (a negation    *)
(* adds 4 units); its output is only used as a multiplication operand.     *)
(* Room: the product of any two registers stays below the range in which   *)
(* the quotient estimate is exact (328 units^2 for BLS12-377; checked on   *)
(* the recorded moduli by EcTrace).  Random = TRUE: generator of chains    *)
(* for the replay driver.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Regs, Random, MaxOps, MaxTerms, Pats
VARIABLES reg, hist
vars == <<reg, hist>>
Room == 328
Kinds == {"none", "fresh", "mul", "acc"}
Bd(k) == CASE k = "none" -> 0 [] k = "fresh" -> 1 [] k = "mul" -> 1 [] OTHER -> 0
Log(x) == hist' = IF Random THEN Append(hist, x) ELSE hist
Init == reg = [r \in Regs |-> [k |-> "none", b |-> 0]] /\ hist = <<>>
Live == {r \in Regs : reg[r].k # "none"}
Terms == {r \in Regs : reg[r].k \in {"fresh", "mul"}}
Fresh(r, p) == reg' = [reg EXCEPT ![r] = [k |-> "fresh", b |-> 1]] /\ Log([op |-> "fresh", r |-> r, p |-> p])
Mul(r, a, b) == reg' = [reg EXCEPT ![r] = [k |-> "mul", b |-> 1]] /\ Log([op |-> "mul", r |-> r, a |-> a, b |-> b])
RECURSIVE SumB(_)
SumB(s) == IF s = <<>> THEN 0 ELSE (IF Head(s).neg = "" THEN reg[Head(s).r].b ELSE 4) + SumB(Tail(s))
Acc(r, s) == reg' = [reg EXCEPT ![r] = [k |-> "acc", b |-> SumB(s)]] /\ Log([op |-> "acc", r |-> r, src |-> s])
\* the generator must not enumerate all term lists: one step picks them from a simulation
TermRec == [r : Terms, neg : {"", "n", "z"}]
Next == /\ Len(hist) < MaxOps
        /\ \/ \E r \in Regs, p \in Pats : (Cardinality(Live) < 2 \/ ~Random \/ p = 0) /\ Fresh(r, p)
           \/ \E r \in Regs, a, b \in Live : Mul(r, a, b)
           \/ \E r \in Regs, n \in 1..MaxTerms :
                IF Random THEN Terms # {} /\ Acc(r, [i \in 1..n |-> RandomElement(TermRec)])
                ELSE \E s \in [1..n -> TermRec] : Acc(r, s)
Emit == Random /\ Len(hist) = MaxOps /\ PrintT("GEN|" \o ToJson([ops |-> hist]))
        /\ hist' = Append(hist, "done") /\ UNCHANGED reg
Spec == Init /\ [][Next \/ Emit]_vars
RoomOk == \A a, b \in Live : reg[a].b * reg[b].b <= Room
TermsOk == \A r \in Terms : reg[r].b <= 1
=============================================================================
