----------------------------- MODULE NoiseTrace -----------------------------
(* Judges the published parameter presets and the noise measured in          *)
(* ciphertexts that the real library produced with them.                     *)
EXTENDS Arith, TraceIO
VARIABLE l
E == Trace[l]
U == INSTANCE Noise WITH Preset <- 0, Sigmas <- 5, MaxOps <- 0, Keys <- 0, reg <- 0, ok <- 0, cnt <- 0
\* mean square of a list of numbers below 2^31 in magnitude
Mean2(s) == ZDiv(U!ZSum([i \in 1..Len(s) |-> U!ZSq(ZOf(s[i]))]), ZOf(Len(s)))
Params == [n |-> E.n, k |-> E.k, N |-> E.N, lb |-> E.lb, L |-> E.L, klb |-> E.klb, kL |-> E.kL,
           vl |-> Mean2(E.gl), vr |-> Mean2(E.gr)]
\* variance, as a power of two, of the 128-bit line of LWE with binary secrets in dimension d (half a bit of slack)
Line(d) == IF 68350 - 51 * d < 0 THEN 0 ELSE (68350 - 51 * d) \div 1000
Ins == CASE E.kind = "fresh2" -> [w |-> <<1, 2>>, v |-> Params.vl] [] E.kind = "fresh3" -> [w |-> <<1, 2, 4>>, v |-> Params.vl]
         [] E.kind = "gate2" -> [w |-> <<1, 2>>, v |-> U!VGate(Params)] [] E.kind = "gate3" -> [w |-> <<1, 2, 4>>, v |-> U!VGate(Params)]
         [] E.kind = "same3" -> [w |-> <<7>>, v |-> U!VGate(Params)]
CBudget == << <<"gate inputs stay five standard deviations inside their encoding block",
                U!Fits(Params, 5, U!Weighted(Ins.w, [i \in 1..Len(Ins.w) |-> Ins.v]))>>,
              <<"a gate result decrypts: noise five standard deviations inside half a block",
                ZLe(ZMul("25", U!VGate(Params)), U!ZSq(U!HalfBlock))>> >>
CLine == << <<"LWE noise reaches the 128-bit line of its dimension", ZLe(ZPow2(Line(E.n)), Params.vl)>>,
            <<"RLWE noise reaches the 128-bit line of its dimension", ZLe(ZPow2(Line(E.k * E.N)), Params.vr)>> >>
\* |2 c - t| within eight standard deviations of a fair coin
Fair(c, t) == ZLe(U!ZSq(ZSub(ZMul("2", ZOf(c)), ZOf(t))), ZMul("64", ZOf(t)))
CFresh == LET want == Mean2(E.g) got == Mean2(E.noise) IN
  << <<"fresh noise has the standard deviation of the random source",
       ZLe(got, ZMul("2", want)) /\ ZLe(want, ZMul("2", got))>>,
     <<"mask bits are fair", \A i \in 1..Len(E.bits) : Fair(E.bits[i], E.total)>>,
     <<"no mask repeats", E.distinct = Len(E.noise)>> >>
\* independent noise: mean square of differences is twice the variance, within a row and between rows
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Near(v, w) == ZLe(v, ZMul("2", w)) /\ ZLe(w, ZMul("2", v))
CRows == LET r == Len(E.noise) n == Len(E.noise[1]) v == Mean2(E.g)
             dn == [i \in 1..r |-> [j \in 1..(n - 1) |-> E.noise[i][j + 1] - E.noise[i][j]]]
             dr == [i \in 1..(r - 1) |-> [j \in 1..n |-> E.noise[i + 1][j] - E.noise[i][j]]] IN
  << <<E.what \o ": noise has the standard deviation of the random source", Near(Mean2(Flat(E.noise)), v)>>,
     <<E.what \o ": the coefficients of one encryption have independent noise", Near(Mean2(Flat(dn)), ZMul("2", v))>>,
     <<E.what \o ": encryptions have independent noise", Near(Mean2(Flat(dr)), ZMul("2", v))>>,
     <<E.what \o ": mask bits are fair", \A i \in 1..Len(E.bits) : Fair(E.bits[i], E.total)>>,
     <<E.what \o ": no mask repeats", E.distinct = IF E.what = "key switching key" THEN r * n ELSE r>> >>
CKey == << <<"secret key is binary and balanced", E.binary /\ Fair(E.ones, E.len)>>,
           <<"secret key has the length of the parameters", E.len = E.want>> >>
CGate == LET got == Mean2(E.noise)
             big == U!ZSum(<<U!VRot(E.p), U!VSwitch(E.p)>>) IN
  << <<"noise of a gate result is no larger than the noise formula", ZLe(ZMul("2", got), ZMul("5", ZAdd("1", U!VGate(E.p))))>>,
     <<"both switching keys carry the noise of their random source", ZLe(big, ZMul("16", ZAdd("1", got)))>> >>
Clauses == CASE E.e = "budget" -> CBudget [] E.e = "line" -> CLine [] E.e = "fresh" -> CFresh [] E.e = "key" -> CKey
             [] E.e = "gate" -> CGate [] E.e = "rows" -> CRows [] E.e = "raise" -> Raised(E) [] OTHER -> <<>>
Init == l = 1
Next == l <= Len(Trace) /\ Judge(l, Clauses) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
