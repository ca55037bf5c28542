----------------------------- MODULE BoolDesign -----------------------------
(***************************************************************************)
(* Programs over Bool.  Pick(S) is S in the exhaustive configuration (all  *)
(* programs up to MaxOps operations) and a single random element in the    *)
(* generating configuration (-simulate), whose finished programs are       *)
(* printed for replay into the real code.                                  *)
(*                                                                         *)
(* The cache variable models the memo of test polynomials: a table is      *)
(* stored per (number of inputs, truth table) the first time it is used;   *)
(* CacheTransparent says a stored table always is the one of its key.      *)
(***************************************************************************)
EXTENDS Bool, Json
CONSTANTS MaxOps, Sessions, Random, T2, T3, BadTts, Fresh, Boot, SwitchErr, Half, Batch, Ops
VARIABLES vals, noise, cache, hist, bad, pool
vars == <<vals, noise, cache, hist, bad, pool>>

Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Regs(s) == 1..Len(vals[s])
Init == /\ vals = [s \in 1..Sessions |-> <<>>]
        /\ noise = [s \in 1..Sessions |-> <<>>]
        /\ cache = [k \in {} |-> <<>>]
        /\ hist = <<>> /\ bad = FALSE
        \* a small pool makes programs reuse truth tables (cache hits)
        /\ pool = IF Random THEN {RandomElement(T2), RandomElement(T2), RandomElement(T3)} ELSE {}
TtSet(T) == IF Random THEN IF pool \cap T # {} /\ RandomElement({0, 1}) = 0 THEN pool \cap T ELSE T ELSE T

TableOf(ni, tt) == [i \in 0..(2^ni - 1) |-> TtBit(tt, i)]
Key(o) == CASE o.op = "lut2" -> <<2, o.tt>> [] o.op = "lut3" -> <<3, o.tt>>
            [] OTHER -> <<2, o.op>>
Touch(o) == IF ~Bootstrapped(o) \/ o.op \in Gates2 \cup {"cmux"} \/ Key(o) \in DOMAIN cache
            THEN cache
            ELSE [k \in DOMAIN cache \cup {Key(o)} |-> IF k = Key(o) THEN TableOf(k[1], k[2]) ELSE cache[k]]
\* the value through the cache, as the implementation computes it
ViaCache(o, vs) ==
  LET c == Touch(o) x(i) == vs[o.a[i]] IN
  CASE o.op = "lut2" -> c[Key(o)][2 * x(2) + x(1)]
    [] o.op = "lut3" -> c[Key(o)][4 * x(3) + 2 * x(2) + x(1)]
    [] OTHER -> OpVal(o, vs)
Do(s, o) ==
  /\ Len(hist) < MaxOps
  /\ hist' = Append(hist, o)
  /\ pool' = pool
  /\ IF Rejected(o) THEN UNCHANGED <<vals, noise, cache, bad>>
     ELSE /\ vals' = [vals EXCEPT ![s] = Append(@, ViaCache(o, vals[s]))]
          /\ noise' = [noise EXCEPT ![s] = Append(@, NoiseOut(o, noise[s], Fresh, Boot))]
          /\ cache' = Touch(o)
          /\ bad' = (bad \/ (Bootstrapped(o) /\ NoiseIn(o, noise[s]) + SwitchErr >= Half)
                         \/ ViaCache(o, vals[s]) # OpVal(o, vals[s]))
Reg(s, S) == IF Random THEN {RandomElement(S)} ELSE S
Next ==
  \E s \in Pick(1..Sessions) :
    \/ \E op \in Pick(Ops) :
       CASE op \in {"constant", "encrypt"} -> \E v \in Pick({0, 1}) : Do(s, [s |-> s, op |-> op, v |-> v])
         [] Regs(s) = {} -> \E v \in Pick({0, 1}) : Do(s, [s |-> s, op |-> "encrypt", v |-> v])
         [] op = "not" -> \E i \in Pick(Regs(s)) : Do(s, [s |-> s, op |-> op, a |-> <<i>>])
         [] op \in Gates2 -> \E i \in Pick(Regs(s)), j \in Pick(Regs(s)) : Do(s, [s |-> s, op |-> op, a |-> <<i, j>>])
         [] op = "lut1" -> \E i \in Pick(Regs(s)), t \in Pick((0..3) \cup BadTts) : Do(s, [s |-> s, op |-> op, a |-> <<i>>, tt |-> t])
         [] op = "lut2" -> \E i \in Pick(Regs(s)), j \in Pick(Regs(s)), t \in Pick(TtSet(T2)) :
                             Do(s, [s |-> s, op |-> op, a |-> <<i, j>>, tt |-> t])
         [] op = "lut3" -> \E i \in Pick(Regs(s)), j \in Pick(Regs(s)), k \in Pick(Regs(s)), t \in Pick(TtSet(T3)) :
                             Do(s, [s |-> s, op |-> op, a |-> <<i, j, k>>, tt |-> t])
         [] op = "cmux" -> \E i \in Pick(Regs(s)), j \in Pick(Regs(s)), k \in Pick(Regs(s)) :
                             Do(s, [s |-> s, op |-> op, a |-> <<i, j, k>>])
Emit == Random /\ Len(hist) = MaxOps /\ PrintT("GEN|" \o ToJson([ops |-> hist]))
        /\ hist' = Append(hist, [op |-> "done"]) /\ UNCHANGED <<vals, noise, cache, bad, pool>>
Spec == Init /\ [][Next \/ Emit]_vars

NoiseBudget == ~bad
Refreshed == \A s \in 1..Sessions : \A i \in Regs(s) : noise[s][i] <= Fresh \/ noise[s][i] <= Boot
CacheTransparent == \A k \in DOMAIN cache : cache[k] = TableOf(k[1], k[2])
\* the named gates are the two-input tables they claim to be, and cmux is a 3-LUT
GateTt(g) == LET b(x, y) == GateVal(g, x, y) IN b(0,0) + 2 * b(0,1) + 4 * b(1,0) + 8 * b(1,1)
ASSUME \A g \in Gates2, x, y \in {0, 1} : GateVal(g, x, y) = Lut2Val(GateTt(g), y, x)
ASSUME Cardinality({GateTt(g) : g \in Gates2}) = 10
CmuxTt == LET b(i) == CmuxVal((i \div 4) % 2, (i \div 2) % 2, i % 2) * 2^i
          IN b(0) + b(1) + b(2) + b(3) + b(4) + b(5) + b(6) + b(7)
ASSUME \A v1, v0, ct \in {0, 1} : CmuxVal(v1, v0, ct) = Lut3Val(CmuxTt, ct, v0, v1)
View == <<vals, noise, cache, bad, Len(hist)>>
=============================================================================
