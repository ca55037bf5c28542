------------------------------ MODULE BoolAll ------------------------------
(* Every operation on every truth table and every input, as one program     *)
(* each: the complete input space of the gate API.                          *)
EXTENDS Bool, Json
VARIABLE o
Enc(bs) == [i \in 1..Len(bs) |-> [s |-> 1, op |-> "encrypt", v |-> bs[i]]]
B2 == {<<x, y>> : x, y \in {0, 1}}
B3 == {<<x, y, z>> : x, y, z \in {0, 1}}
Cases ==
  {<<"const", 0, <<v>>>> : v \in {0, 1}}
  \cup {<<"not", 0, <<v>>>> : v \in {0, 1}}
  \cup {<<"lut1", t, <<v>>>> : v \in {0, 1}, t \in (-2)..6}
  \cup {<<g, 0, b>> : g \in Gates2, b \in B2}
  \cup {<<"lut2", t, b>> : t \in 0..15, b \in B2}
  \cup {<<"cmux", 0, b>> : b \in B3}
  \cup {<<"lut3", t, b>> : t \in 0..255, b \in B3}
Prog(c) == IF c[1] = "const" THEN <<[s |-> 1, op |-> "constant", v |-> c[3][1]]>>
           ELSE Append(Enc(c[3]), [s |-> 1, op |-> c[1], a |-> [i \in 1..Len(c[3]) |-> i], tt |-> c[2]])
Init == o \in Cases /\ PrintT("GEN|" \o ToJson([ops |-> Prog(o)]))
Spec == Init /\ [][FALSE]_o
=============================================================================
