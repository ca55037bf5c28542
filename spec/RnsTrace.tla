------------------------------ MODULE RnsTrace ------------------------------
(* Judges recorded histories of RnsPolynomial objects.  The state is the    *)
(* heap of ideal ring elements the machine of Rns.tla keeps as val, at real *)
(* size: a value is, per modulus, a vector of residues (numerals).          *)
EXTENDS Arith, TraceIO
VARIABLES l, world, slot, heap
E == Trace[l]
\* world[w] = [n, qs, roots]: roots[m][i] is the point at which position i of a
\* transformed polynomial is evaluated (recorded as the transform of X)
RootsOk(n, q, rs) == /\ Len(rs) = n /\ Cardinality(Range(rs)) = n
                     /\ \A i \in 1..n : ZPowMod(rs[i], ZOf(n), q) = ZSub(q, "1")
RECURSIVE Horner(_, _, _, _)
Horner(v, x, q, i) == IF i = Len(v) THEN ZMod(v[i], q) ELSE ZMod(ZAdd(v[i], ZMul(x, Horner(v, x, q, i + 1))), q)
EvalAll(v, w) == [m \in 1..Len(w.qs) |-> [i \in 1..w.n |-> Horner(v[m], w.roots[m][i], w.qs[m], 1)]]
Map2(Op(_, _), a, b, qs) == [m \in 1..Len(qs) |-> [k \in 1..Len(a[m]) |-> ZMod(Op(a[m][k], b[m][k]), qs[m])]]
RingMul(a, b, qs) == [m \in 1..Len(qs) |-> LET p == ZNegMul(a[m], b[m]) IN [k \in 1..Len(p) |-> ZMod(p[k], qs[m])]]
Neg(a, qs) == [m \in 1..Len(qs) |-> [k \in 1..Len(a[m]) |-> ZMod(ZSub("0", a[m][k]), qs[m])]]
Red(c, qs) == [m \in 1..Len(qs) |-> [k \in 1..Len(c) |-> ZMod(c[k], qs[m])]]

Known(s) == s \in DOMAIN slot
Obj(s) == heap[slot[s]]
Comp(x, y) == world[x.w].n = world[y.w].n /\ world[x.w].qs = world[y.w].qs /\ x.form = y.form
Good == CASE E.op \in {"add", "sub"} -> Comp(Obj(E.a), Obj(E.b))
          [] E.op = "mul" -> Comp(Obj(E.a), Obj(E.b)) /\ Obj(E.a).form = "n"
          [] OTHER -> TRUE
Result == CASE E.op = "new" -> [w |-> E.w, form |-> "c", val |-> Red(E.co, world[E.w].qs)]
            [] E.op = "arr" -> [w |-> E.w, form |-> E.form, val |-> E.val]
            [] E.op \in {"copy", "rt"} -> Obj(E.a)
            [] E.op = "neg" -> [Obj(E.a) EXCEPT !.val = Neg(@, world[Obj(E.a).w].qs)]
            [] E.op = "add" -> [Obj(E.a) EXCEPT !.val = Map2(ZAdd, @, Obj(E.b).val, world[Obj(E.a).w].qs)]
            [] E.op = "sub" -> [Obj(E.a) EXCEPT !.val = Map2(ZSub, @, Obj(E.b).val, world[Obj(E.a).w].qs)]
            [] E.op = "mul" -> [Obj(E.a) EXCEPT !.val = RingMul(@, Obj(E.b).val, world[Obj(E.a).w].qs)]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
\* object names are line numbers: never reused
Slot2 == CASE E.op = "alias" -> Upd(slot, E.d, slot[E.a])
           [] E.op \in {"ntt", "coef"} -> slot
           [] OTHER -> IF Good THEN Upd(slot, E.d, l) ELSE slot
Heap2 == CASE E.op = "ntt" -> [heap EXCEPT ![slot[E.d]].form = "n"]
           [] E.op = "coef" -> [heap EXCEPT ![slot[E.d]].form = "c"]
           [] E.op = "alias" -> heap
           [] OTHER -> IF Good THEN Upd(heap, l, Result) ELSE heap
Form(b) == IF b THEN "n" ELSE "c"
SnapOk(s, o) ==
  LET w == world[o.w]  sn == E.snap[s] IN
  /\ Form(sn.ntt) = o.form /\ sn.n = w.n /\ sn.qs = w.qs
  /\ sn.c = IF o.form = "c" THEN o.val ELSE EvalAll(o.val, w)
Clauses ==
  CASE E.e = "world" ->
         << <<"the transform evaluates at n distinct roots of X^n + 1",
               \A m \in 1..Len(E.qs) : RootsOk(E.n, E.qs[m], E.roots[m])>> >>
    [] E.e = "rns" ->
         << <<"operation " \o E.op \o IF Good THEN " on compatible operands returns" ELSE " on incompatible operands raises",
               E.ok = Good>>,
            <<"every object represents its ring element after " \o E.op,
               E.ok = Good => \A s \in DOMAIN Slot2 : SnapOk(s, Heap2[Slot2[s]])>> >>
    [] E.e = "crt" -> << <<"CRT reconstruction", \A i \in 1..Len(E.out) :
              E.out[i] = ZCrt([m \in 1..Len(E.qs) |-> E.rs[m][i]], E.qs)>> >>
    [] E.e = "reject" -> << <<"invalid arguments are rejected: " \o E.what, ~E.ok>> >>
    [] E.e = "raise" -> Raised(E)
    [] E.e \in {"newprog", "end"} -> <<>>
Init == l = 1 /\ world = <<>> /\ slot = <<>> /\ heap = <<>>
Next == /\ l <= Len(Trace) /\ Judge(l, Clauses) /\ l' = l + 1
        /\ world' = IF E.e = "world" THEN Append(world, [n |-> E.n, qs |-> E.qs, roots |-> E.roots])
                    ELSE IF E.e = "newprog" THEN <<>> ELSE world
        /\ slot' = IF E.e = "rns" THEN Slot2 ELSE IF E.e = "newprog" THEN <<>> ELSE slot
        /\ heap' = IF E.e = "rns" THEN Heap2 ELSE IF E.e = "newprog" THEN <<>> ELSE heap
Spec == Init /\ [][Next]_<<l, world, slot, heap>>
=============================================================================
