-------------------------------- MODULE Kern --------------------------------
(***************************************************************************)
(* Kernel objects of jaxite_ckks as values with hidden state.              *)
(* A slot holds an object of a kind, set up for a level.  Setting it up    *)
(* again replaces the constants; a pytree round trip makes an independent  *)
(* object holding the same constants; applying it (eagerly, through jit    *)
(* with the object as an argument, or captured in a jitted closure) is a   *)
(* function F of kind, level and argument, and leaves object and argument  *)
(* alone - except "rescale", which works in place on its argument.         *)
(* An object keeps an internal cache of what was compiled for it: the      *)
(* model lets an application use either the cache or a fresh computation,  *)
(* and Sound says the two may never differ.  A set-up that forgot to drop  *)
(* the cache, or a round trip that shared it, breaks Sound (Bug = TRUE     *)
(* shows that the model can tell).                                         *)
(* Random = TRUE: generator of histories for the replay driver.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, Levels, Args, Kinds, Random, MaxOps, Bug
VARIABLES obj, cell, hist, last
vars == <<obj, cell, hist, last>>
F(k, v, a) == <<k, v, a>>                   \* uninterpreted
Routes == {"eager", "jit", "closure"}
\* obj[s] = [kind, lvl, cache]: cache is a set of pairs <<argument, result>>
Log(x) == hist' = IF Random THEN Append(hist, x) ELSE hist
Init == /\ \E f \in [Slots -> Kinds] : obj = [s \in Slots |-> [kind |-> f[s], lvl |-> 1, cache |-> {}]]
        /\ cell = [a \in Args |-> a] /\ hist = <<>> /\ last = <<>>
Pre(s, v) == /\ obj' = [obj EXCEPT ![s].lvl = v, ![s].cache = IF Bug THEN @ ELSE {}]
             /\ UNCHANGED cell /\ last' = <<>> /\ Log([op |-> "pre", s |-> s, k |-> obj[s].kind, lvl |-> v])
Tree(d, s) == /\ obj' = [obj EXCEPT ![d] = [kind |-> obj[s].kind, lvl |-> obj[s].lvl, cache |-> {}]]
              /\ UNCHANGED cell /\ last' = <<>> /\ Log([op |-> "tree", d |-> d, s |-> s, k |-> obj[s].kind])
Apply(s, a, r) ==
  LET o == obj[s]
      x == cell[a]
      hits == {p \in o.cache : p[1] = x /\ r # "eager"}
      Res == {F(o.kind, o.lvl, x)} \cup {p[2] : p \in hits}
  IN \E y \in Res :
       /\ obj' = [obj EXCEPT ![s].cache = IF Random THEN {} ELSE @ \cup {<<x, y>>}]
       \* in place: the argument's cell takes the result (the generator and the
       \* small model refresh it immediately: the driver passes a copy)
       /\ UNCHANGED cell
       /\ last' = << [k |-> o.kind, v |-> o.lvl, a |-> x, y |-> y] >>
       /\ Log([op |-> "apply", s |-> s, k |-> o.kind, a |-> a, r |-> r])
Next == /\ Len(hist) < MaxOps
        /\ \/ \E s \in Slots, v \in Levels : Pre(s, v)
           \/ \E d, s \in Slots : d # s /\ Tree(d, s)
           \/ \E s \in Slots, a \in Args, r \in Routes : Apply(s, a, r)
Emit == Random /\ Len(hist) = MaxOps
        /\ PrintT("GEN|" \o ToJson([ops |-> hist]))
        /\ hist' = Append(hist, "done") /\ UNCHANGED <<obj, cell, last>>
Spec == Init /\ [][Next \/ Emit]_vars
Sound == last # <<>> => LET t == last[1] IN t.y = F(t.k, t.v, t.a)
CacheSound == \A s \in Slots : \A p \in obj[s].cache : p[2] = F(obj[s].kind, obj[s].lvl, p[1])
ArgsKept == cell = [a \in Args |-> a]
=============================================================================
