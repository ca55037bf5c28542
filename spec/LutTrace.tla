------------------------------ MODULE LutTrace ------------------------------
(* Judges recorded questions to LookUpTable, from_callable, LutCache and the *)
(* parameter object in front of it.                                          *)
EXTENDS Cggi, TraceIO
VARIABLE l
E == Trace[l]
U == INSTANCE Lut WITH Caches <- {1}, Arities <- {1}, Tables <- {0}, MaxOps <- 0, Random <- FALSE,
                       Bug <- "none", memo <- 0, last <- 0, hist <- 0
P == [tot |-> 32, msg |-> 3, pad |-> 1]
Want == IF Has(E, "g") THEN U!NameValues(E.g) ELSE U!Values(E.k, E.t)
WantK == IF Has(E, "g") THEN U!ArityOf(E.g) ELSE E.k
CLut == << <<"a table keeps its number of inputs", E.arity = WantK>>,
           <<"the cleartext list is the truth table, first argument most significant", E.list = Want>>,
           <<"the truth table number is the one the values spell", Has(E, "exact") => E.tt = U!Num(Want)>> >>
CPoly == LET w == U!Padded(Want, 3) IN
  << <<"the polynomial is valid under every key: no mask", \A i \in 1..(Len(E.out) - 1) : \A j \in 1..Len(E.out[i]) : E.out[i][j] = 0>>,
     <<"dimensions are those of the scheme parameters", Len(E.out) = E.rk + 1 /\ \A i \in 1..Len(E.out) : Len(E.out[i]) = E.n>>,
     <<"the test polynomial evaluates the table, unused messages mapping to the illegal value", E.out[Len(E.out)] = TestPoly(w, P, E.n)>> >>
CReject == << <<"rejected: " \o E.what, ~E.ok>> >>
Clauses == CASE E.e = "lut" -> CLut [] E.e = "poly" -> CPoly [] E.e = "reject" -> CReject
             [] E.e = "raise" -> Raised(E) [] OTHER -> <<>>
Init == l = 1
Next == l <= Len(Trace) /\ Judge(l, Clauses) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
