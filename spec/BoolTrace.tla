------------------------------ MODULE BoolTrace ------------------------------
(***************************************************************************)
(* Validates a recorded run of jaxite_bool: the machine state (the bits of *)
(* every session's registers) evolves by Bool!OpVals, and every recorded   *)
(* ciphertext must be an encryption of it, as seen both by the library's   *)
(* decrypt and by the specification's own phase and decoding.              *)
(***************************************************************************)
EXTENDS Cggi, Bool, TraceIO
VARIABLES l, sess, vals
E == Trace[l]
P == [tot |-> 32, msg |-> 3, pad |-> 1]
S == sess[E.s]
\* worst noise a bootstrapped or fresh register may have (keys bundle two bits)
Bound(q) == ZAdd(ZMul("2", ZOf(q.E)),
              ZAdd(BrBound(q.key, q.k, q.n, q.lb, q.L, ZOf(q.E), TRUE),
                   KsBound(q.k * q.n, q.klb, q.kL, ZOf(q.E), q.k * q.n)))
Vs == vals[E.s]
Want == OpVals(E.o, Vs)
OpClauses ==
  IF Rejected(E.o)
  THEN << <<"an illegal truth table is rejected with ValueError", ~E.ok /\ E.err = "ValueError">> >>
  ELSE << <<"operation returns a value: " \o E.o.op \o " " \o E.err, E.ok>>,
          <<"one result per request", E.ok => Len(E.out) = Len(Want)>>,
          <<"result decrypts to the cleartext value (" \o E.o.op \o ")",
             E.ok /\ Len(E.out) = Len(Want) => \A i \in 1..Len(Want) : E.out[i].dec = Want[i]>>,
          <<"phase of the result decodes to the cleartext value (" \o E.o.op \o ")",
             E.ok /\ Len(E.out) = Len(Want) =>
               \A i \in 1..Len(Want) : Decode(LwePhase(E.out[i].ct, S.key), P) = Want[i]>>,
          <<"noise of the result is bounded whatever the history (" \o E.o.op \o ")",
             E.ok /\ Len(E.out) = Len(Want) =>
               \A i \in 1..Len(Want) :
                  Within(TSub(LwePhase(E.out[i].ct, S.key), Encode(Want[i], P)), S.bound)>> >>
\* results kept by the caller still decrypt to the same bits after the history
FinalClauses ==
  << <<"earlier results still decrypt to their value after the whole program",
       Len(E.decs) = Len(Vs) /\ \A i \in 1..Len(Vs) : E.decs[i] = Vs[i]>> >>
Clauses == CASE E.e = "op" -> OpClauses [] E.e = "final" -> FinalClauses
             [] E.e = "session" -> << <<"LWE key is binary of the declared dimension",
                  Len(E.key) = E.dim /\ \A i \in 1..Len(E.key) : E.key[i] \in {0, 1}>> >>
             [] E.e = "raise" -> Raised(E) [] E.e = "end" -> <<>>
Init == l = 1 /\ sess = [s \in 1..2 |-> [key |-> <<>>]] /\ vals = [s \in 1..2 |-> <<>>]
Next == /\ l <= Len(Trace) /\ Judge(l, Clauses) /\ l' = l + 1
        /\ IF E.e = "session"
           THEN /\ sess' = [sess EXCEPT ![E.s] = [key |-> E.key, bound |-> Bound(E)]]
                /\ vals' = [vals EXCEPT ![E.s] = <<>>]
           ELSE IF E.e = "op" /\ ~Rejected(E.o)
           THEN UNCHANGED sess /\ vals' = [vals EXCEPT ![E.s] = @ \o Want]
           ELSE UNCHANGED <<sess, vals>>
Spec == Init /\ [][Next]_<<l, sess, vals>>
=============================================================================
