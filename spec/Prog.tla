-------------------------------- MODULE Prog --------------------------------
(***************************************************************************)
(* CKKS evaluation programs.  A register holds a ciphertext of sz          *)
(* components at a level; the machine state also carries what a user       *)
(* reasons with: the ideal polynomial M over the integers, the product D   *)
(* of the moduli it has been rescaled by, and an error bound B, meaning    *)
(*     D * phase = M + e  (mod D * Q_lvl),   |e| <= B coefficientwise.     *)
(* Every operation perturbs the phase by an arbitrary error within its own *)
(* bound and updates <<M, D, B>> by a fixed rule; Tracks says the rules    *)
(* are sound for every program and every choice of errors, whatever the    *)
(* messages (wrap-around modulo Q included).  ProgTrace.tla applies the    *)
(* same rules to the programs replayed on the real kernels.                *)
(* Bug names a rule to weaken (selftest: each must break Tracks).          *)
(* Random = TRUE: generator of programs.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, NRegs, L, Q1, MM, EB, RB, KB, MaxM, MaxB, MaxOps, Random, Bug
VARIABLES reg, hist
vars == <<reg, hist>>
Mods == <<Q1, 5, 3>>                    \* toy chain (the rules do not need primes)
RECURSIVE QOf(_)
QOf(v) == IF v = 0 THEN 1 ELSE Mods[v] * QOf(v - 1)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
L1(a) == Sum([k \in 1..N |-> Abs(a[k])])
Add(a, b) == [k \in 1..N |-> a[k] + b[k]]
Scale(z, a) == [k \in 1..N |-> z * a[k]]
\* negacyclic product
Mul(a, b) == [k \in 1..N |->
   Sum([i \in 1..N |-> LET j == ((k - i) % N) + 1 IN
                       IF i <= k THEN a[i] * b[j] ELSE -(a[i] * b[j])])]
\* X -> X^-1
Conj(a) == [k \in 1..N |-> IF k = 1 THEN a[1] ELSE -(a[N - k + 2])]
Center(x, m) == LET r == x % m IN IF 2 * r > m THEN r - m ELSE r
ModV(a, m) == [k \in 1..N |-> a[k] % m]
Polys(S) == [1..N -> S]
Errs(b) == Polys((-b)..b)

Live(r) == reg[r].lvl > 0
Empty == [lvl |-> 0, sz |-> 2, ph |-> [k \in 1..N |-> 0], M |-> [k \in 1..N |-> 0], D |-> 1, B |-> 0]
Small(x) == /\ \A k \in 1..N : Abs(x.M[k]) <= MaxM
            /\ x.B <= MaxB
Put(d, x, what) ==
  /\ Random \/ Small(x)
  /\ reg' = [reg EXCEPT ![d] = IF Random THEN [x EXCEPT !.ph = Empty.ph, !.M = Empty.M, !.D = 1, !.B = 0] ELSE x]
  /\ hist' = IF Random THEN Append(hist, what) ELSE hist

Init == reg = [r \in 1..NRegs |-> Empty] /\ hist = <<>>

ErrSet(b) == IF Random THEN {[k \in 1..N |-> 0]} ELSE Errs(b)
Encrypt(d, v) ==
  \E m \in IF Random THEN {Empty.M} ELSE Polys((-MM)..MM), e \in ErrSet(EB) :
    Put(d, [lvl |-> v, sz |-> 2, ph |-> ModV(Add(m, e), QOf(v)), M |-> m, D |-> 1, B |-> EB],
        [op |-> "enc", d |-> d, lvl |-> v])
AddOp(d, a, b) ==
  /\ Live(a) /\ Live(b) /\ reg[a].lvl = reg[b].lvl /\ reg[a].sz = reg[b].sz
  /\ LET x == reg[a]  y == reg[b]
         same == x.D = y.D IN
     Put(d, [lvl |-> x.lvl, sz |-> x.sz, ph |-> ModV(Add(x.ph, y.ph), QOf(x.lvl)),
             M |-> IF same THEN Add(x.M, y.M) ELSE Add(Scale(y.D, x.M), Scale(x.D, y.M)),
             D |-> IF same THEN x.D ELSE x.D * y.D,
             B |-> IF Bug = "add" THEN x.B ELSE IF same THEN x.B + y.B ELSE y.D * x.B + x.D * y.B],
         [op |-> "add", d |-> d, a |-> a, b |-> b])
PMul(d, a) ==
  /\ Live(a)
  /\ \E p \in IF Random THEN {Empty.M} ELSE Polys(-1..1) :
     LET x == reg[a] IN
     Put(d, [x EXCEPT !.ph = ModV(Mul(x.ph, p), QOf(x.lvl)), !.M = Mul(x.M, p),
                      !.B = IF Bug = "pmul" THEN @ ELSE @ * L1(p)],
         [op |-> "pmul", d |-> d, a |-> a])
Tensor(d, a, b) ==
  /\ Live(a) /\ Live(b) /\ reg[a].lvl = reg[b].lvl /\ reg[a].sz = 2 /\ reg[b].sz = 2
  /\ LET x == reg[a]  y == reg[b] IN
     Put(d, [lvl |-> x.lvl, sz |-> 3, ph |-> ModV(Mul(x.ph, y.ph), QOf(x.lvl)), M |-> Mul(x.M, y.M),
             D |-> x.D * y.D,
             B |-> (L1(x.M) * y.B) + (L1(y.M) * x.B) + (IF Bug = "tensor" THEN 0 ELSE N * x.B * y.B)],
         [op |-> "tensor", d |-> d, a |-> a, b |-> b])
Relin(d, a) ==
  /\ Live(a) /\ reg[a].sz = 3
  /\ \E e \in ErrSet(RB) : LET x == reg[a] IN
     Put(d, [x EXCEPT !.sz = 2, !.ph = ModV(Add(x.ph, e), QOf(x.lvl)),
                      !.B = @ + (IF Bug = "relin" THEN RB ELSE x.D * RB)],
         [op |-> "relin", d |-> d, a |-> a])
\* rounding error of the phase: every component is off by at most q/2
Rnd(q) == q
Rescale(a) ==
  /\ Live(a) /\ reg[a].lvl > 1
  /\ LET x == reg[a]  q == Mods[x.lvl] IN
     \E e \in IF Random THEN {Empty.M} ELSE Errs(Rnd(q)) :
       /\ Random \/ \A k \in 1..N : (x.ph[k] + e[k]) % q = 0
       /\ Put(a, [x EXCEPT !.lvl = @ - 1, !.ph = [k \in 1..N |-> ((x.ph[k] + e[k]) \div q) % QOf(x.lvl - 1)],
                           !.D = IF Bug = "rescale" THEN @ ELSE @ * q, !.B = @ + (x.D * Rnd(q))],
              [op |-> "rescale", d |-> a, a |-> a])
ConjOp(d, a) ==
  /\ Live(a) /\ reg[a].sz = 2
  /\ \E e \in ErrSet(KB) : LET x == reg[a] IN
     Put(d, [x EXCEPT !.ph = ModV(Add(Conj(x.ph), e), QOf(x.lvl)), !.M = Conj(@), !.B = @ + (x.D * KB)],
         [op |-> "conj", d |-> d, a |-> a])
\* selection by an encrypted bit (the rotated form is a signed permutation, as Conj)
Mux(d, a, beta) ==
  /\ Live(a) /\ reg[a].sz = 2
  /\ \E e \in ErrSet(KB) : LET x == reg[a] IN
     Put(d, [x EXCEPT !.ph = ModV(Add(Scale(beta, x.ph), e), QOf(x.lvl)), !.M = Scale(beta, @),
                      !.B = (beta * @) + (x.D * KB)],
         [op |-> "mux", d |-> d, a |-> a, beta |-> beta])
Op == \/ \E d \in 1..NRegs, v \in (IF Random THEN 2..L ELSE 1..L) :
            /\ ~Live(d) \/ (Random /\ Len(hist) > 2 * NRegs /\ d = 1)
            /\ Encrypt(d, v)
      \/ \E d, a, b \in 1..NRegs : AddOp(d, a, b) \/ Tensor(d, a, b)
      \/ \E d, a \in 1..NRegs : \/ PMul(d, a) \/ Relin(d, a) \/ ConjOp(d, a)
                                \/ (d = a /\ Rescale(a))
      \/ \E d, a \in 1..NRegs, beta \in 0..1 : Mux(d, a, beta)
\* the generator picks the kind of operation first, so that every kind is frequent
Kinds == <<"enc", "add", "pmul", "tensor", "tensor", "relin", "relin", "rescale", "conj", "mux", "add", "rescale">>
One(S) == RandomElement(S)
GenOp ==
  LET lives == {r \in 1..NRegs : Live(r)}
  IN \E k \in {Kinds[One(1..Len(Kinds))]} :
     IF \E r \in 1..NRegs : ~Live(r)
     THEN \E d \in {CHOOSE r \in 1..NRegs : ~Live(r)} : \E v \in {IF d <= 2 THEN L ELSE One(2..L)} : Encrypt(d, v)
     ELSE CASE k = "enc" -> \E d \in {One(1..NRegs)}, v \in {One(1..L)} : Encrypt(d, v)
            [] k = "add" -> \E d \in {One(1..NRegs)}, a, b \in lives : AddOp(d, a, b)
            [] k = "pmul" -> \E d, a \in {One(1..NRegs)} : PMul(d, a)
            [] k = "tensor" -> \E d \in {One(1..NRegs)}, a, b \in lives : Tensor(d, a, b)
            [] k = "relin" -> \E d \in {One(1..NRegs)}, a \in lives : Relin(d, a)
            [] k = "rescale" -> \E a \in {One(1..NRegs)} : Rescale(a)
            [] k = "conj" -> \E d, a \in {One(1..NRegs)} : ConjOp(d, a)
            [] k = "mux" -> \E d \in {One(1..NRegs)}, a \in {One(1..NRegs)}, beta \in {IF One(1..3) = 1 THEN 0 ELSE 1} : Mux(d, a, beta)
\* a step whose kind does not apply is skipped by idling
Idle == Random /\ UNCHANGED vars
Next == /\ Random => Len(hist) < MaxOps
        /\ IF Random THEN GenOp \/ Idle ELSE Op
Emit == Random /\ Len(hist) = MaxOps
        /\ PrintT("GEN|" \o ToJson([ops |-> hist]))
        /\ hist' = Append(hist, "done") /\ UNCHANGED reg
Spec == Init /\ [][Next \/ Emit]_vars
Depth == TLCGet("level") <= MaxOps + 1
Tracks == \A r \in 1..NRegs : Live(r) =>
  LET x == reg[r]  m == x.D * QOf(x.lvl) IN
  \A k \in 1..N : Abs(Center(x.D * x.ph[k] - x.M[k], m)) <= x.B
Typed == \A r \in 1..NRegs : reg[r].lvl \in 0..L /\ reg[r].sz \in {2, 3}
=============================================================================
