------------------------------ MODULE TraceIO ------------------------------
(* Reading recorded traces and reporting failing clauses.                   *)
EXTENDS Arith, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

Has(ev, f) == f \in DOMAIN ev

(* A clause is <<name, truth value>>.  Judge prints every failing clause of  *)
(* trace line l and is itself always TRUE, so that the rest of the trace is  *)
(* still examined: the verdict is the set of BAD lines.                      *)
Judge(l, clauses) ==
  \A i \in 1..Len(clauses) :
     IF clauses[i][2] THEN TRUE ELSE PrintT("BAD|" \o ToString(l) \o "|" \o clauses[i][1])

(* clauses that apply to every event: an exception escaping the code under   *)
(* test where the specification demands a value is itself a failing clause   *)
Raised(ev) == << <<"unexpected exception in " \o ev.at \o ": " \o ev.err, FALSE>> >>
=============================================================================
