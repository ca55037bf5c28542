-------------------------------- MODULE Bool --------------------------------
(***************************************************************************)
(* The machine a user of jaxite_bool programs: sessions (a key pair with   *)
(* its parameters), each with a growing file of ciphertext registers, and  *)
(* operations that append registers.  A register is abstracted by the bit  *)
(* it encrypts and by a bound on its noise.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Gates2 == {"and", "andny", "andyn", "or", "orny", "oryn", "nand", "nor", "xor", "xnor"}
TtBit(tt, i) == (tt \div 2^i) % 2
\* named gates: x is the first argument, y the second
GateVal(g, x, y) ==
  CASE g = "and"   -> x * y
    [] g = "andny" -> (1 - x) * y
    [] g = "andyn" -> x * (1 - y)
    [] g = "or"    -> 1 - (1 - x) * (1 - y)
    [] g = "orny"  -> 1 - x * (1 - y)
    [] g = "oryn"  -> 1 - (1 - x) * y
    [] g = "nand"  -> 1 - x * y
    [] g = "nor"   -> (1 - x) * (1 - y)
    [] g = "xor"   -> (x + y) % 2
    [] g = "xnor"  -> (x + y + 1) % 2
Lut1Val(tt, a) == TtBit(tt, a)
Lut2Val(tt, a, b) == TtBit(tt, 2 * b + a)
Lut3Val(tt, a, b, c) == TtBit(tt, 4 * c + 2 * b + a)
CmuxVal(v1, v0, ctrl) == IF ctrl = 1 THEN v1 ELSE v0

\* the bit an operation o must produce, from the bits vs of the registers
OpVal(o, vs) ==
  LET x(i) == vs[o.a[i]] IN
  CASE o.op = "constant" -> o.v
    [] o.op = "encrypt"  -> o.v
    [] o.op = "not"      -> 1 - x(1)
    [] o.op \in Gates2   -> GateVal(o.op, x(1), x(2))
    [] o.op = "lut1"     -> Lut1Val(o.tt, x(1))
    [] o.op = "lut2"     -> Lut2Val(o.tt, x(1), x(2))
    [] o.op = "lut3"     -> Lut3Val(o.tt, x(1), x(2), x(3))
    [] o.op = "cmux"     -> CmuxVal(x(1), x(2), x(3))
\* operations producing several registers (parallel batches) and single ones
IsBatch(o) == o.op \in {"pmap2", "pmap3"}
OpVals(o, vs) ==
  CASE o.op = "pmap2" -> [i \in 1..Len(o.reqs) |-> Lut2Val(o.reqs[i].tt, vs[o.reqs[i].a[1]], vs[o.reqs[i].a[2]])]
    [] o.op = "pmap3" -> [i \in 1..Len(o.reqs) |->
         Lut3Val(o.reqs[i].tt, vs[o.reqs[i].a[1]], vs[o.reqs[i].a[2]], vs[o.reqs[i].a[3]])]
    [] OTHER -> <<OpVal(o, vs)>>
Rejected(o) == o.op = "lut1" /\ o.tt \notin 0..3

\* noise: linear weight of the inputs of a bootstrapped operation
NoiseIn(o, ns) ==
  LET n(i) == ns[o.a[i]] IN
  CASE o.op \in {"lut2"}  -> n(1) + 2 * n(2)
    [] o.op \in Gates2    -> 2 * n(1) + n(2)
    [] o.op = "lut3"      -> n(1) + 2 * n(2) + 4 * n(3)
    [] o.op = "cmux"      -> n(3) + 2 * n(2) + 4 * n(1)
    [] OTHER              -> 0
Bootstrapped(o) == o.op \in Gates2 \cup {"lut2", "lut3", "cmux"}
NoiseOut(o, ns, fresh, boot) ==
  CASE o.op = "constant" -> 0
    [] o.op = "encrypt"  -> fresh
    [] o.op = "not"      -> ns[o.a[1]]
    [] o.op = "lut1"     -> IF o.tt \in {0, 3} THEN 0 ELSE ns[o.a[1]]
    [] OTHER             -> boot
=============================================================================
