----------------------------- MODULE BatchTrace -----------------------------
(* Judges recorded calls of batch_vmap: the result is the stack, along the   *)
(* requested axis, of the function's values on the slices.                   *)
EXTENDS TraceIO
VARIABLE l
E == Trace[l]
\* arrays: shape sh and row-major data d
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
Axis(ax, rank) == IF ax < 0 THEN ax + rank ELSE ax
Slice(a, ax, i) ==                                   \* i-th slice (from 1) along axis ax
  LET k == Axis(ax, Len(a.sh)) + 1
      in == Prod(SubSeq(a.sh, k + 1, Len(a.sh)))
      sh == SubSeq(a.sh, 1, k - 1) \o SubSeq(a.sh, k + 1, Len(a.sh))
  IN [sh |-> sh, d |-> [j \in 1..Prod(sh) |-> a.d[((((j - 1) \div in) * a.sh[k] + (i - 1)) * in) + ((j - 1) % in) + 1]]]
Stack(xs, sh, ax) ==                                 \* arrays xs of shape sh along the new axis ax
  LET k == Axis(ax, Len(sh) + 1) + 1
      m == Len(xs)
      in == Prod(SubSeq(sh, k, Len(sh)))
      osh == SubSeq(sh, 1, k - 1) \o <<m>> \o SubSeq(sh, k, Len(sh))
  IN [sh |-> osh, d |-> [j \in 1..Prod(osh) |->
        LET q == (j - 1) \div in IN xs[(q % m) + 1].d[((q \div m) * in) + ((j - 1) % in) + 1]]]
Arg(k, i) == IF E.ax[k] = 99 THEN E.args[k] ELSE Slice(E.args[k], E.ax[k], i)
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
Map2(a, b, Op(_, _)) == [sh |-> a.sh, d |-> [j \in 1..Len(a.d) |-> Op(a.d[j], b.d[j])]]
F(i) == CASE E.kind = "sum" -> << [sh |-> <<>>, d |-> <<Total(Arg(1, i).d)>>] >>
          [] E.kind = "lin2" -> << Map2(Arg(1, i), Arg(2, i), LAMBDA x, y : (3 * x) - y) >>
          [] E.kind = "three" -> << Map2(Map2(Arg(1, i), Arg(2, i), LAMBDA x, y : x - (2 * y)), Arg(3, i), LAMBDA x, y : x + (5 * y)) >>
          [] E.kind = "tree" -> << Map2(Arg(1, i), Arg(2, i), LAMBDA x, y : (7 * x) - y),
                                   Map2(Arg(2, i), Arg(3, i), LAMBDA x, y : x * y) >>
Inner == IF E.kind = "sum" THEN <<>> ELSE E.sh
Want(k) == Stack([i \in 1..E.n |-> F(i)[k]], Inner, E.oa[k])
CBatch == << <<"every output is the stack of the function's values on all elements, in order",
               Len(E.outs) = Len(E.oa) /\ \A k \in 1..Len(E.oa) : LET w == Want(k) IN E.outs[k].sh = w.sh /\ E.outs[k].d = w.d>> >>
Clauses == CASE E.e = "batch" -> CBatch [] E.e = "raise" -> Raised(E) [] OTHER -> <<>>
Init == l = 1
Next == l <= Len(Trace) /\ Judge(l, Clauses) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
