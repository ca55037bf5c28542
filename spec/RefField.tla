----------------------------- MODULE RefField ------------------------------
(***************************************************************************)
(* The reference field classes of jaxite_ec/algorithm: an element is held  *)
(* as it is ("plain", "barrett") or multiplied by R = 2^k ("mont"); a      *)
(* Montgomery element may also be switched to its ordinary form ("std"),   *)
(* in which it may only be a divisor, be copied or be switched back.       *)
(* A session is any sequence of operations on a few registers.  raw is     *)
(* what the algorithms (Barrett's quotient, Montgomery's REDC, Fermat's    *)
(* inverse) compute, val the element of Z/p it has to stand for.           *)
(* Random = TRUE: generator of sessions for the replay driver.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ps, NRegs, MaxOps, Random
VARIABLES p, reg, hist
vars == <<p, reg, hist>>
RECURSIVE Lg(_, _)
Lg(k, m) == IF 2^k >= m THEN k ELSE Lg(k + 1, m)
K == Lg(0, p)                               \* ceil(log2 p)
RR == 2^K
RECURSIVE Pow(_, _)
Pow(x, e) == IF e = 0 THEN 1 % p
             ELSE LET h == Pow(x, e \div 2) IN IF e % 2 = 1 THEN (((h * h) % p) * x) % p ELSE (h * h) % p
Inv(x) == Pow(x, p - 2)                     \* 0 for 0, as in the code
\* x in 0..p^2
Barrett(x) == LET q == (x * ((2^(2 * K)) \div p)) \div 2^(2 * K)
                  r == x - q * p
              IN IF r >= p THEN r - p ELSE r
NPrime == ((RR * Pow(RR % p, p - 2)) - 1) \div p
Redc(x) == LET m == ((x % RR) * NPrime) % RR
               u == (x + m * p) \div RR
           IN IF u >= p THEN u - p ELSE u
Reps == {"plain", "barrett", "mont"}
Cond(x) == IF x >= p THEN x - p ELSE x
RawOf(rep, v) == IF rep = "mont" THEN (v * RR) % p ELSE v
AddR(rep, a, b) == IF rep = "plain" THEN (a + b) % p ELSE Cond(a + b)
SubR(a, b) == IF a < b THEN a + p - b ELSE a - b
MulR(rep, a, b) == CASE rep = "plain" -> (a * b) % p [] rep = "barrett" -> Barrett(a * b) [] rep = "mont" -> Redc(a * b)
DivR(rep, a, b, brep) ==
  CASE rep = "plain" -> (a * Inv(b)) % p
    [] rep = "barrett" -> Barrett(a * Inv(b))
    [] rep = "mont" -> Redc(a * ((Inv(IF brep = "mont" THEN Redc(b) ELSE b) * RR) % p))
Family(rep) == IF rep = "std" THEN "mont" ELSE rep
Exps == 0..5
Log(x) == hist' = IF Random THEN Append(hist, x) ELSE hist
Put(d, rep, raw, val, what) == reg' = [reg EXCEPT ![d] = [rep |-> rep, raw |-> raw, val |-> val]] /\ Log(what) /\ UNCHANGED p
Init == /\ p \in Ps
        /\ reg = [r \in 1..NRegs |-> [rep |-> "none", raw |-> 0, val |-> 0]] /\ hist = <<>>
New(d, rep, v) == Put(d, rep, RawOf(rep, v), v, [op |-> "new", d |-> d, rep |-> rep])
Bin(d, a, b, op) ==
  LET x == reg[a]  y == reg[b] IN
  /\ x.rep \in Reps /\ Family(y.rep) = x.rep
  /\ y.rep = "std" => op = "div"
  /\ op = "div" => y.val # 0 \/ Random
  /\ LET raw == CASE op = "add" -> AddR(x.rep, x.raw, y.raw)
                  [] op = "sub" -> IF x.rep = "plain" THEN (x.raw - y.raw) % p ELSE SubR(x.raw, y.raw)
                  [] op = "mul" -> MulR(x.rep, x.raw, y.raw)
                  [] op = "div" -> DivR(x.rep, x.raw, y.raw, y.rep)
         val == CASE op = "add" -> (x.val + y.val) % p [] op = "sub" -> (x.val - y.val) % p
                  [] op = "mul" -> (x.val * y.val) % p [] op = "div" -> (x.val * Inv(y.val)) % p
     IN Put(d, x.rep, raw, val, [op |-> op, d |-> d, a |-> a, b |-> b])
\* a power by repeated multiplication; the code raises the ordinary value
PowOp(d, a, e) ==
  LET x == reg[a] IN
  /\ x.rep \in Reps
  /\ Put(d, x.rep, IF x.rep = "mont" THEN (Pow(Redc(x.raw), e) * RR) % p ELSE Pow(x.raw, e), Pow(x.val, e),
         [op |-> "pow", d |-> d, a |-> a])
Copy(d, a) == reg[a].rep # "none" /\ Put(d, reg[a].rep, reg[a].raw, reg[a].val, [op |-> "copy", d |-> d, a |-> a])
Switch(a) ==
  LET x == reg[a] IN
  /\ x.rep \in {"mont", "std"}
  /\ IF x.rep = "mont" THEN Put(a, "std", Redc(x.raw), x.val, [op |-> "switch", d |-> a, a |-> a])
     ELSE Put(a, "mont", (x.raw * RR) % p, x.val, [op |-> "switch", d |-> a, a |-> a])
Op == \/ \E d \in 1..NRegs, rep \in Reps, v \in 0..(p - 1) : New(d, rep, v)
      \/ \E d, a, b \in 1..NRegs, op \in {"add", "sub", "mul", "div"} : Bin(d, a, b, op)
      \/ \E d, a \in 1..NRegs, e \in Exps : PowOp(d, a, e)
      \/ \E d, a \in 1..NRegs : Copy(d, a) \/ (d = a /\ Switch(a))
One(S) == RandomElement(S)
GenOp ==
  \E k \in {One({"new", "add", "sub", "mul", "mul", "div", "pow", "copy", "switch"})},
     d \in {One(1..NRegs)}, a \in {One(1..NRegs)}, b \in {One(1..NRegs)}, rep \in {One(Reps)} :
    CASE k = "new" -> New(d, rep, 1 % p)
      [] k \in {"add", "sub", "mul", "div"} -> Bin(d, a, b, k)
      [] k = "pow" -> PowOp(d, a, 1)
      [] k = "copy" -> Copy(d, a)
      [] k = "switch" -> Switch(a)
Next == IF Random THEN Len(hist) < MaxOps /\ (GenOp \/ UNCHANGED vars) ELSE Op
Emit == Random /\ Len(hist) = MaxOps /\ PrintT("GEN|" \o ToJson([ops |-> hist]))
        /\ hist' = Append(hist, "done") /\ UNCHANGED <<p, reg>>
Spec == Init /\ [][Next \/ Emit]_vars
Exact == \A r \in 1..NRegs : reg[r].rep # "none" => reg[r].raw \in 0..(p - 1) /\ reg[r].raw = RawOf(reg[r].rep, reg[r].val)
=============================================================================
