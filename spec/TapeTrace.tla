------------------------------ MODULE TapeTrace -----------------------------
(* Follows recorded draws of a random source into the keys and ciphertexts   *)
(* they end up in.  pool holds the draws that are in no result yet.          *)
EXTENDS Ckks, TraceIO
VARIABLES l, pool
E == Trace[l]
AllQ == E.qs \o E.pp
PP == QOf(E.pp)
\* draws over the moduli of the event
Kind(k) == {d \in pool : d.k = k /\ d.v # <<>> /\ Len(d.v) = Len(E.qs) /\ Len(d.v[1]) = Len(E.s)}
\* masks may be drawn in either form: both are uniform
Masks(p, a, qs, w) == {d \in p : d.k = "uniform" /\ (d.v = a \/ d.v = ToResidues(a, qs, w))}
Errors(p, e) == {d \in p : d.k = "gaussian" /\ d.v = e}
First(S) == CHOOSE d \in S : \A x \in S : d.id <= x.id
\* b - target + a s in coefficient form, per modulus; targets in transform form
Noise(r, qs, w, s) ==
  ToResidues([m \in 1..Len(qs) |-> VecAddMod(VecSubMod(r.b[m], r.t[m], qs[m]),
                                             VecMulMod(r.a[m], NttEval(s, qs[m], w[m]), qs[m]), qs[m])], qs, w)
\* takes one mask and one error out of the pool for every row
RECURSIVE Consume(_, _, _, _, _)
Consume(p, rows, qs, w, s) ==
  IF rows = <<>> THEN [mask |-> TRUE, err |-> TRUE, pool |-> p]
  ELSE LET a == Masks(p, Head(rows).a, qs, w)
           e == Errors(p, Noise(Head(rows), qs, w, s))
           rest == Consume((p \ (IF a = {} THEN {} ELSE {First(a)})) \ (IF e = {} THEN {} ELSE {First(e)}), Tail(rows), qs, w, s)
       IN [mask |-> a # {} /\ rest.mask, err |-> e # {} /\ rest.err, pool |-> rest.pool]
Flat0(qs, n) == [m \in 1..Len(qs) |-> [k \in 1..n |-> 0]]
Const(z, qs, n) == [m \in 1..Len(qs) |-> [k \in 1..n |-> ZInt(ZMod(z, ZOf(qs[m])))]]
RotG(j, n) == OddInv(PowModDef(5, j, 2 * n), 2 * n)
N == Len(E.s)
Rows ==
  CASE E.e = "tpk" -> << [a |-> E.pk[2], b |-> E.pk[1], t |-> Flat0(E.qs, N)] >>
    [] E.e = "tksk" -> LET parts == Parts(Len(E.qs), E.dnum) IN
         [i \in 1..E.dnum |-> [a |-> E.a[i], b |-> E.b[i], t |->
            [m \in 1..Len(AllQ) |-> IF i <= Len(parts) /\ m \in Range(parts[i])
                                   THEN [k \in 1..N |-> MulMod(E.src[m][k], ZInt(ZMod(PP, ZOf(AllQ[m]))), AllQ[m])]
                                   ELSE [k \in 1..N |-> 0]]]]
    [] E.e = "thm" -> LET pb == ZMul(PP, ZOf(E.beta))
                          rot == Reduce(VScale(pb, VAut(ZS(E.s), RotG(E.j, N))), AllQ) IN
         << [a |-> E.key0[2], b |-> E.key0[1], t |-> [m \in 1..Len(AllQ) |-> NttEval(rot[m], AllQ[m], E.w[m])]],
            [a |-> E.key1[2], b |-> E.key1[1], t |-> Const(pb, AllQ, N)] >>
Moduli == IF Has(E, "pp") THEN AllQ ELSE E.qs
Got == Consume(pool, Rows, Moduli, E.w, E.s)
CRows == << <<"every mask is a uniform draw that is in no other place (" \o E.e \o ")", Got.mask>>,
            <<"every error is a Gaussian draw that is in no other place (" \o E.e \o ")", Got.err>> >>
\* the secret key is a draw of its own
Secret == {d \in Kind("ternary") \cup Kind("sparse") : \A m \in 1..Len(E.qs) : \A k \in 1..N : d.v[m][k] = (E.s[k] % E.qs[m])}
CSecret == << <<"the secret key is a small draw that is in no other place", Secret # {}>> >>
\* encryptions: c1 = v pk1 + e1, c0 = v pk0 + e0 + m
Rest(v, c, pk, t, qs, w) ==
  ToResidues([m \in 1..Len(qs) |-> VecSubMod(VecSubMod(c[m], t[m], qs[m]),
                                             VecMulMod(NttEval(v[m], qs[m], w[m]), pk[m], qs[m]), qs[m])], qs, w)
Fits == {x \in {<<v, e0, e1>> : v \in Kind("ternary"), e0 \in Kind("gaussian"), e1 \in Kind("gaussian")} :
           /\ x[2] # x[3]
           /\ x[3].v = Rest(x[1].v, E.ct[2], E.pk[2], Flat0(E.qs, N), E.qs, E.w)
           /\ x[2].v = Rest(x[1].v, E.ct[1], E.pk[1], E.pt, E.qs, E.w)}
CEnc == << <<"an encryption uses one small and two Gaussian draws that are in no other place", Fits # {}>> >>
UseEnc == IF Fits = {} THEN pool ELSE LET x == CHOOSE y \in Fits : TRUE IN pool \ {x[1], x[2], x[3]}
\* draws themselves
SameInt(v, qs, b) == \A k \in 1..Len(v[1]) : LET c == ZInt(ZCenter(ZOf(v[1][k]), ZOf(qs[1]))) IN
                       AbsI(c) <= b /\ \A m \in 1..Len(qs) : v[m][k] = (c % qs[m])
CDraw == << <<"a draw is canonical over its moduli", Canonical(E.v, E.qs)>>,
            <<"a small draw is the same integer modulo every modulus",
              E.k # "uniform" => SameInt(E.v, E.qs, IF E.k = "gaussian" THEN 40 ELSE 1)>> >>
\* long draws: second moments and frequencies (z: lists of centred values)
RECURSIVE ZSumL(_)
Sq(s) == SumI([i \in 1..Len(s) |-> s[i] * s[i]])
Count(S, n) == Cardinality({i \in 1..n : S[i]})
ZSumL(s) == IF s = <<>> THEN "0" ELSE ZAdd(Head(s), ZSumL(Tail(s)))
Fair(c, t) == (2 * c - t) * (2 * c - t) <= 64 * t
CSource ==
  LET n == Len(E.g) IN
  << <<"Gaussian draws have standard deviation 3.19", Sq(E.g) >= 7 * n /\ Sq(E.g) <= 14 * n>>,
     <<"successive Gaussian coefficients are independent",
        LET d == [i \in 1..(n - 1) |-> E.g[i + 1] - E.g[i]] IN Sq(d) >= 14 * n /\ Sq(d) <= 28 * n>>,
     <<"small secrets are balanced", LET c == Count([i \in 1..n |-> E.t[i] # 0], n) IN 5 * c >= 2 * n /\ 5 * c <= 4 * n>>,
     <<"uniform draws fill their range", \A m \in 1..Len(E.u) : \A h \in 1..Len(E.u[m]) : Fair(E.u[m][h], n)>>,
     <<"sparse secrets have the requested weight", \A i \in 1..Len(E.hw) : E.hw[i][1] = E.hw[i][2]>>,
     <<"a seed determines the draws, another seed gives other draws", E.same /\ E.differ>> >>
CDistinct == << <<"independent runs share no mask, key or ciphertext: " \o E.what, E.distinct = E.total>>,
                <<"errors of unseeded runs are not degenerate: " \o E.what,
                  Has(E, "err") => (Sq(E.err) >= 3 * Len(E.err) /\ Sq(E.err) <= 30 * Len(E.err))>> >>
Clauses == CASE E.e = "draw" -> CDraw
             [] E.e = "tpk" -> CRows \o CSecret
             [] E.e \in {"tksk", "thm"} -> CRows
             [] E.e = "tenc" -> CEnc
             [] E.e = "source" -> CSource [] E.e = "distinct" -> CDistinct
             [] E.e = "raise" -> Raised(E) [] OTHER -> <<>>
NewPool == CASE E.e = "open" -> {}
             [] E.e = "draw" -> pool \cup {[id |-> E.id, k |-> E.k, v |-> E.v]}
             [] E.e = "tpk" -> Got.pool \ (IF Secret = {} THEN {} ELSE {First(Secret)})
             [] E.e \in {"tksk", "thm"} -> Got.pool
             [] E.e = "tenc" -> UseEnc
             [] OTHER -> pool
Init == l = 1 /\ pool = {}
Next == l <= Len(Trace) /\ Judge(l, Clauses) /\ pool' = NewPool /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, pool>>
=============================================================================
