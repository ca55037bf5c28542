------------------------------ MODULE MiscTrace ------------------------------
(* Judges recorded runs of the random sources and of the type converters.   *)
EXTENDS TraceIO
VARIABLES l, hist
E == Trace[l]
RECURSIVE ProdI(_)
ProdI(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdI(Tail(s))
H(s) == IF s \in DOMAIN hist THEN hist[s] ELSE <<>>
V(i) == E.vals[i]
N == Len(E.vals)
InB(v) == ZLe(E.lo, v) /\ ZLe(v, E.hi)
\* ------------------------------------------------------------- sources
CCall == << <<"a call returns the requested shape and dtype", E.oshape = E.shape /\ E.odtype = E.dtype /\ N = ProdI(E.shape)>>,
            <<"draws lie in the declared range", E.kind # "n" => \A i \in 1..N : InB(V(i))>> >>
CFlat == << <<"regrouping the same draws into other calls and shapes gives the same stream",
              E.flat = H(E.src)>> >>
CNoRestart == << <<"successive calls continue the stream: later draws do not repeat the first ones",
                   E.second # E.first>>,
                 <<"different seeds give different streams", E.other # E.first>> >>
CCover == << <<"every value of a small inclusive interval is drawn, and nothing else",
               {V(i) : i \in 1..N} = {ZAdd(E.lo, ZOf(k)) : k \in 0..E.width}>> >>
CSpread == << <<"draws cover the whole interval: extremes and quarters are reached",
               /\ \A i \in 1..N : InB(V(i))
               /\ \A q \in 0..7 : \E i \in 1..N :
                    LET w == ZAdd(ZSub(E.hi, E.lo), "1")
                    IN ZInt(ZDiv(ZMul("8", ZSub(V(i), E.lo)), w)) = q>> >>
Sq(x) == ZMul(x, x)
CNormal ==
  LET sum == ZSumSeq(E.vals)
      sq == ZSumSeq([i \in 1..N |-> Sq(V(i))])
      within(c) == Cardinality({i \in 1..N : ZLe(Sq(V(i)), ZMul(ZOf(c * c), Sq(E.std)))})
  IN IF E.std = "0" THEN << <<"a normal source of deviation 0 returns 0", \A i \in 1..N : V(i) = "0">> >>
     ELSE << <<"normal draws are centred", ZLe(Sq(sum), ZMul(ZOf(64 * N), Sq(E.std)))>>,
             <<"normal draws have the requested deviation",
                /\ ZLe(ZMul("7", ZMul(ZOf(N), Sq(E.std))), ZMul("10", sq))
                /\ ZLe(ZMul("10", sq), ZMul("14", ZMul(ZOf(N), Sq(E.std))))>>,
             <<"normal draws are not uniform: about 68% within one deviation, 95% within two, all within nine",
                /\ 100 * within(1) > 58 * N /\ 100 * within(1) < (IF E.coarse THEN 95 ELSE 78) * N
                /\ 100 * within(2) > 90 * N /\ within(2) < N
                /\ within(9) = N>> >>
RECURSIVE ZPow(_, _)
ZPow(b, e) == IF e = 0 THEN "1" ELSE LET h == ZPow(b, e \div 2) s == ZMul(h, h) IN IF e % 2 = 1 THEN ZMul(s, b) ELSE s
CycleNum == ZDiv(ZPow("13", 39 * 39), "53")
RECURSIVE BitsOf(_, _)
\* the bits of x (below 2^w), most significant first
BitsOf(x, w) == IF w = 1 THEN <<ZInt(x)>>
                ELSE LET h == w \div 2 p == ZPow2(h) IN BitsOf(ZDiv(x, p), w - h) \o BitsOf(ZMod(x, p), h)
RECURSIVE Width(_, _)
Width(x, w) == IF ZLt(x, ZPow2(w)) THEN w ELSE Width(x, w + 1)
CCycle == LET w == Width(CycleNum, 5600)  B == BitsOf(CycleNum, w)
          IN << <<"the cycle source repeats its fixed bit string, across calls and kinds",
                  E.flat = [i \in 1..Len(E.flat) |-> B[((i - 1) % w) + 1]]>>,
                <<"its noise is the configured constant", \A i \in 1..Len(E.noise) : E.noise[i] = E.const>> >>
CConst == << <<"constant and zero sources return exactly their value: " \o E.cls,
               \A i \in 1..N : V(i) = E.const>>,
             <<"constant sources keep shape and dtype: " \o E.cls, E.oshape = E.shape /\ E.odtype = E.dtype>> >>
CReject == << <<"invalid argument is rejected: " \o E.what, ~E.ok /\ E.err = "ValueError">> >>
\* ---------------------------------------------------------- converters
Bit(x, j) == ZBit(x, j)
CUint == << <<"bit j of the integer is at position j", E.bits = [j \in 1..E.w |-> Bit(E.x, j - 1)]>>,
            <<"the bits convert back to the integer", E.back = E.x>> >>
CBytes == << <<"bit j of byte i is at position 8i+j",
               E.bits = [p \in 1..(8 * Len(E.bytes)) |-> (E.bytes[((p - 1) \div 8) + 1] \div 2^((p - 1) % 8)) % 2]>>,
             <<"the bits convert back to the bytes", E.back = E.bytes>> >>
CBits == << <<"bits convert to the bytes they spell, whole bytes only",
              LET n == Len(E.bits) \div 8
                  v(i) == LET b(j) == E.bits[8 * (i - 1) + j] * 2^(j - 1)
                          IN b(1) + b(2) + b(3) + b(4) + b(5) + b(6) + b(7) + b(8)
              IN E.bytes = [i \in 1..n |-> v(i)]>> >>
CStr == LET want == E.text \o [i \in 1..(IF E.slen > Len(E.text) THEN E.slen - Len(E.text) ELSE 0) |-> E.padb]
        IN << <<"a string converts to the bits of its bytes padded to the static length",
               E.bits = [p \in 1..(8 * Len(want)) |-> (want[((p - 1) \div 8) + 1] \div 2^((p - 1) % 8)) % 2]>>,
              <<"the bits convert back to the padded string", E.back = want>> >>
Clauses == CASE E.e = "call" -> CCall [] E.e = "flat" -> CFlat [] E.e = "norestart" -> CNoRestart
             [] E.e = "cover" -> CCover [] E.e = "spread" -> CSpread [] E.e = "normal" -> CNormal
             [] E.e = "cycle" -> CCycle [] E.e = "const" -> CConst [] E.e = "reject" -> CReject
             [] E.e = "uint" -> CUint [] E.e = "bytes" -> CBytes [] E.e = "bits" -> CBits [] E.e = "str" -> CStr
             [] E.e = "raise" -> Raised(E) [] E.e = "newprog" -> <<>> [] E.e = "end" -> <<>>
Init == l = 1 /\ hist = [s \in {} |-> <<>>]
Next == /\ l <= Len(Trace) /\ Judge(l, Clauses) /\ l' = l + 1
        /\ IF E.e = "newprog" THEN hist' = [s \in {1, 2} |-> <<>>]
           ELSE IF E.e = "call"
           THEN hist' = [hist EXCEPT ![E.src] = @ \o [i \in 1..N |-> <<E.kind, V(i)>>]]
           ELSE UNCHANGED hist
Spec == Init /\ [][Next]_<<l, hist>>
=============================================================================
