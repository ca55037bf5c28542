--------------------------------- MODULE Lut ---------------------------------
(***************************************************************************)
(* Look-up tables of jaxite_bool and the cache in front of them.           *)
(*                                                                         *)
(* A table over k inputs is the function of the input combination (first   *)
(* argument most significant) whose values are the bits of an integer,     *)
(* least significant bit for "all false".  A cache memoises tables under a *)
(* key; Transparent says no history of questions, by number or by name, to *)
(* any number of caches, ever changes an answer.  Bug = "arity" keys the   *)
(* memo by the truth table alone, Bug = "name" takes every named gate for  *)
(* a two-input one: both must break Transparent.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Caches, Arities, Tables, MaxOps, Random, Bug
VARIABLES memo, last, hist
vars == <<memo, last, hist>>
Bit(t, i) == (t \div 2^i) % 2
Values(k, t) == [i \in 1..2^k |-> Bit(t, i - 1)]
\* the named gates: value on the input combination x1 x2 (x3), x1 most significant
Names == {"and", "andny", "andyn", "nand", "nor", "or", "orny", "oryn", "xnor", "xor", "cmux"}
ArityOf(g) == IF g = "cmux" THEN 3 ELSE 2
Gate(g, x) ==
  CASE g = "and" -> x[1] /\ x[2]         [] g = "andny" -> ~x[1] /\ x[2]
    [] g = "andyn" -> x[1] /\ ~x[2]      [] g = "nand" -> ~(x[1] /\ x[2])
    [] g = "nor" -> ~(x[1] \/ x[2])      [] g = "or" -> x[1] \/ x[2]
    [] g = "orny" -> ~x[1] \/ x[2]       [] g = "oryn" -> x[1] \/ ~x[2]
    [] g = "xnor" -> x[1] <=> x[2]       [] g = "xor" -> ~(x[1] <=> x[2])
    [] g = "cmux" -> IF x[3] THEN x[1] ELSE x[2]
Args(k, i) == [j \in 1..k |-> Bit(i, k - j) = 1]
NameValues(g) == [i \in 1..2^ArityOf(g) |-> IF Gate(g, Args(ArityOf(g), i - 1)) THEN 1 ELSE 0]
RECURSIVE Num(_)
Num(v) == IF v = <<>> THEN 0 ELSE v[1] + (2 * Num(Tail(v)))
\* padding to the message space of 2^m values with the illegal message
Unused == 2
Padded(v, m) == [i \in 1..2^m |-> IF i <= Len(v) THEN v[i] ELSE Unused]

Key(k, t) == IF Bug = "arity" THEN <<0, t>> ELSE <<k, t>>
Init == memo = [c \in Caches |-> {}] /\ last = [want |-> <<>>, got |-> <<>>] /\ hist = <<>>
Answer(c, k, t, want, what) ==
  LET found == {x \in memo[c] : x.key = Key(k, t)}
      v == IF found = {} THEN Values(k, t) ELSE (CHOOSE x \in found : TRUE).v
  IN /\ memo' = IF Random THEN memo ELSE [memo EXCEPT ![c] = @ \cup {[key |-> Key(k, t), v |-> v]}]
     /\ last' = [want |-> want, got |-> v]
     /\ hist' = IF Random THEN Append(hist, what) ELSE hist
Ask(c, k, t) == Answer(c, k, t, Values(k, t), [op |-> "num", c |-> c, k |-> k, t |-> t])
AskName(c, g) ==
  LET k == IF Bug = "name" THEN 2 ELSE ArityOf(g) IN
  Answer(c, k, Num(NameValues(g)), NameValues(g), [op |-> "name", c |-> c, g |-> g])
One(S) == RandomElement(S)
\* generated questions favour truth tables that several arities share
GenNext ==
  \E w \in {One(1..6)}, c \in {One(Caches)} :
    IF w = 1 THEN \E g \in {One(Names)} : AskName(c, g)
    ELSE \E k \in {One(Arities)} : \E t \in {One(IF w <= 4 THEN {0, 1, 2, 3, 6, 8, 9, 14, 15} ELSE 0..(2^(2^k) - 1))} :
      Answer(c, k, t, Values(k, t),
             [op |-> IF w = 2 THEN "callable" ELSE "num", c |-> c, k |-> k, t |-> t % 2^(2^k)])
Next == /\ Len(hist) < MaxOps
        /\ IF Random THEN GenNext
           ELSE \/ \E c \in Caches, k \in Arities, t \in Tables : Ask(c, k, t)
                \/ \E c \in Caches, g \in Names : AskName(c, g)
Emit == Random /\ Len(hist) = MaxOps
        /\ PrintT("GEN|" \o ToJson([ops |-> hist]))
        /\ hist' = Append(hist, "done") /\ UNCHANGED <<memo, last>>
Spec == Init /\ [][Next \/ Emit]_vars
Transparent == last.got = last.want
RoundTrip == \A k \in Arities, t \in Tables : t < 2^(2^k) => Num(Values(k, t)) = t
Small == \A c \in Caches : Cardinality(memo[c]) <= 3
==============================================================================
