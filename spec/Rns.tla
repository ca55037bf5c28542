-------------------------------- MODULE Rns --------------------------------
(***************************************************************************)
(* RNS polynomial objects as a heap with references.  An object is a ring  *)
(* element of Z_q[X]/(X^2+1) kept either as coefficients ("c") or as its   *)
(* evaluations at the two odd powers of a primitive 4th root ("n").        *)
(* Slots (program variables) refer to objects; conversions work in place,  *)
(* arithmetic allocates, assigning a slot to another shares the object.    *)
(* The ghost component val is the ideal ring element.                      *)
(* Random = TRUE turns the machine into a generator of histories.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, Worlds, Random, MaxOps, Full
VARIABLES slot, heap, hist
vars == <<slot, heap, hist>>
Q(w) == IF w = 3 THEN 13 ELSE 5
R1(w) == CASE w = 1 -> 2 [] w = 2 -> 3 [] w = 3 -> 5   \* root of X^2+1
R2(w) == (R1(w) * R1(w) * R1(w)) % Q(w)
Eval(v, w) == << (v[1] + v[2] * R1(w)) % Q(w), (v[1] + v[2] * R2(w)) % Q(w) >>
Half(w) == (Q(w) + 1) \div 2
\* inverse transform written out (Gentleman-Sande for two points)
Interp(e, w) == << ((e[1] + e[2]) * Half(w)) % Q(w),
                   ((e[1] - e[2]) * Half(w) * (Q(w) - R1(w))) % Q(w) >>   \* R1^-1 = -R1
Abs(o) == IF o.form = "c" THEN o.vec ELSE CHOOSE v \in (0..(Q(o.w) - 1)) \X (0..(Q(o.w) - 1)) : Eval(v, o.w) = o.vec
VAdd(a, b, w) == << (a[1] + b[1]) % Q(w), (a[2] + b[2]) % Q(w) >>
VSub(a, b, w) == << (a[1] - b[1]) % Q(w), (a[2] - b[2]) % Q(w) >>
VNeg(a, w) == << (-a[1]) % Q(w), (-a[2]) % Q(w) >>
Pointwise(a, b, w) == << (a[1] * b[1]) % Q(w), (a[2] * b[2]) % Q(w) >>
RingMul(a, b, w) == << (a[1] * b[1] - a[2] * b[2]) % Q(w), (a[1] * b[2] + a[2] * b[1]) % Q(w) >>

Vals(w) == IF Full /\ w = 1 THEN (0..4) \X (0..4)
           ELSE IF Random THEN {<<1, 2>>} ELSE {<<Q(w) - 1, 1>>, <<2, Q(w) - 1>>}
Obj(s) == heap[slot[s]]
\* objects are kept in a heap indexed by slots; a fresh object reuses an index
\* no slot refers to
Free(d) == {i \in Slots : \A s \in Slots \ {d} : slot[s] # i}
Put(d, o) == LET i == IF slot[d] \in Free(d) THEN slot[d] ELSE CHOOSE j \in Free(d) : TRUE
             IN slot' = [slot EXCEPT ![d] = i] /\ heap' = [heap EXCEPT ![i] = o]
Log(x) == hist' = IF Random THEN Append(hist, x) ELSE hist
New(d, w) == /\ \E v \in Vals(w) : Put(d, [w |-> w, form |-> "c", vec |-> v, val |-> v])
             /\ Log([op |-> "new", d |-> d, w |-> w])
Arr(d, w, f) == /\ \E v \in Vals(w) : Put(d, [w |-> w, form |-> f, vec |-> IF f = "c" THEN v ELSE Eval(v, w), val |-> v])
                /\ Log([op |-> "arr", d |-> d, w |-> w, form |-> f])
ToN(a) == /\ LET o == Obj(a) IN
             heap' = [heap EXCEPT ![slot[a]] = IF o.form = "n" THEN o ELSE [o EXCEPT !.form = "n", !.vec = Eval(o.vec, o.w)]]
          /\ UNCHANGED slot /\ Log([op |-> "ntt", d |-> a])
ToC(a) == /\ LET o == Obj(a) IN
             heap' = [heap EXCEPT ![slot[a]] = IF o.form = "c" THEN o ELSE [o EXCEPT !.form = "c", !.vec = Interp(o.vec, o.w)]]
          /\ UNCHANGED slot /\ Log([op |-> "coef", d |-> a])
Alias(d, a) == slot' = [slot EXCEPT ![d] = slot[a]] /\ UNCHANGED heap /\ Log([op |-> "alias", d |-> d, a |-> a])
Copy(d, a) == Put(d, Obj(a)) /\ Log([op |-> "copy", d |-> d, a |-> a])
Rt(d, a) == Put(d, Obj(a)) /\ Log([op |-> "rt", d |-> d, a |-> a])
Neg(d, a) == LET o == Obj(a) IN
             /\ Put(d, [o EXCEPT !.vec = VNeg(o.vec, o.w), !.val = VNeg(o.val, o.w)])
             /\ Log([op |-> "neg", d |-> d, a |-> a])
Compatible(a, b) == Obj(a).w = Obj(b).w /\ Obj(a).form = Obj(b).form
Bin(op, d, a, b) ==
  LET x == Obj(a)  y == Obj(b)  w == x.w
      good == Compatible(a, b) /\ (op = "mul" => x.form = "n")
      vec == CASE op = "add" -> VAdd(x.vec, y.vec, w) [] op = "sub" -> VSub(x.vec, y.vec, w) [] op = "mul" -> Pointwise(x.vec, y.vec, w)
      val == CASE op = "add" -> VAdd(x.val, y.val, w) [] op = "sub" -> VSub(x.val, y.val, w) [] op = "mul" -> RingMul(x.val, y.val, w)
  IN /\ IF good THEN Put(d, [x EXCEPT !.vec = vec, !.val = val]) ELSE UNCHANGED <<slot, heap>>
     /\ Log([op |-> op, d |-> d, a |-> a, b |-> b])
Init == /\ slot = [s \in Slots |-> s] /\ hist = <<>>
        /\ heap = [s \in Slots |-> LET w == IF s % 4 = 0 /\ 2 \in Worlds THEN 2 ELSE 1 IN
                                   [w |-> w, form |-> "c", vec |-> <<1, 0>>, val |-> <<1, 0>>]]
\* the generator favours conversions
Bias == IF Random THEN 1..4 ELSE {1}
Dest(a, b) == IF Random THEN {((a + b) % Cardinality(Slots)) + 1} ELSE Slots
Next == /\ Len(hist) < MaxOps
        /\ \/ \E d \in Slots, w \in Worlds : New(d, w)
           \/ \E d \in Slots, w \in Worlds, f \in {"c", "n"} : Arr(d, w, f)
           \/ \E a \in Slots, k \in Bias : ToN(a) \/ ToC(a)
           \/ \E d, a \in Slots : Alias(d, a) \/ Copy(d, a) \/ Rt(d, a) \/ Neg(d, a)
           \/ \E a, b \in Slots, op \in {"add", "sub", "mul"} : \E d \in Dest(a, b) : Bin(op, d, a, b)
Emit == Random /\ Len(hist) = MaxOps /\ PrintT("GEN|" \o ToJson([ops |-> hist]))
        /\ hist' = Append(hist, "done") /\ UNCHANGED <<slot, heap>>
Spec == Init /\ [][Next \/ Emit]_vars
\* ---------------------------------------------------------------- properties
Faithful == \A s \in Slots : Abs(Obj(s)) = Obj(s).val
Canonical == \A s \in Slots : Obj(s).vec[1] \in 0..(Q(Obj(s).w) - 1) /\ Obj(s).vec[2] \in 0..(Q(Obj(s).w) - 1)
\* a step changes the ideal value of at most one slot's object; in-place
\* conversions change none
Frame == [][Cardinality({s \in Slots : Obj(s).val # heap'[slot'[s]].val \/ Obj(s).w # heap'[slot'[s]].w}) <= 1]_vars
=============================================================================
