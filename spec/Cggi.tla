-------------------------------- MODULE Cggi --------------------------------
(***************************************************************************)
(* The CGGI (TFHE) scheme of jaxite.jaxite_cggi over the discretised torus *)
(* Z / 2^LogQ.                                                             *)
(*                                                                         *)
(* LogQ is a parameter: the design model (CggiDesign) explores the scheme  *)
(* exhaustively on a toy torus, the trace specification (CggiTrace) judges *)
(* the real code with LogQ = 32.  With LogQ = 32 an element is the signed  *)
(* integer in -2^31..2^31-1 congruent to it, otherwise it is in 0..2^LogQ-1*)
(***************************************************************************)
EXTENDS Arith
CONSTANT LogQ

Big == LogQ = 32
Q   == 2^LogQ                 \* only evaluated when LogQ < 31

(* ---------------------------------------------------------------- torus *)
TNorm(x)    == IF Big THEN ZInt(ZWrap(ZOf(x))) ELSE x % Q
TAdd(a, b)  == IF Big THEN WAdd(a, b) ELSE (a + b) % Q
TSub(a, b)  == IF Big THEN WSub(a, b) ELSE (a - b) % Q
TMul(a, b)  == IF Big THEN WMul(a, b) ELSE (a * b) % Q
TNeg(a)     == TSub(0, a)
TShl(a, k)  == IF Big THEN ZInt(ZWrap(ZMul(ZOf(a), ZPow2(k)))) ELSE (a * 2^k) % Q
\* signed representative
Cent(a)     == IF Big THEN a ELSE IF 2 * a >= Q THEN a - Q ELSE a
\* |a| <= bound, the bound being a Z numeral
Within(a, zbound) == ZLe(ZAbs(ZOf(Cent(a))), zbound)
\* unsigned value as a Z numeral
Uns(a)      == IF Big THEN WUns(a) ELSE ZOf(a)
OfUns(zn)    == IF Big THEN ZInt(ZWrap(zn)) ELSE ZInt(ZMod(zn, ZPow2(LogQ)))

(* ------------------------------------------------------------- encoding *)
ErrBits(p)  == p.tot - p.msg - p.pad
\* nearest multiple of 2^k, ties upwards, wrapping at 2^LogQ
RoundPow2(a, k) ==
  IF k = 0 THEN a
  ELSE OfUns(ZMul(ZDiv(ZAdd(Uns(a), ZPow2(k - 1)), ZPow2(k)), ZPow2(k)))
EncodeOk(m, p) == m >= 0 /\ ZLt(ZOf(m), ZPow2(p.msg))
Encode(m, p)   == TShl(m, ErrBits(p))
RemoveNoise(a, p) == RoundPow2(a, ErrBits(p))
ZDecodeBits(a, p, bits) ==
  ZMod(ZDiv(Uns(RemoveNoise(a, p)), ZPow2(ErrBits(p))), ZPow2(bits))
Decode(a, p)    == ZInt(ZDecodeBits(a, p, p.msg))
Noise(a, p)     == Cent(TSub(a, RemoveNoise(a, p)))

(* -------------------------------------------------------- decomposition *)
\* digits (most significant first) of the top L base-2^lb digits
UDigits(a, lb, L, tot) == [i \in 1..L |-> ZDigit(Uns(a), tot - i * lb, lb)]
\* one step of the carry chain, least significant digit first
RECURSIVE SChain(_, _, _, _)
SChain(a, lb, i, carry) ==
  IF i * lb >= LogQ THEN <<>>
  ELSE LET d == ZDigit(Uns(a), i * lb, lb) + carry
           B == 2^lb
           c == IF 2 * d >= B THEN 1 ELSE 0
       IN <<d - c * B>> \o SChain(a, lb, i + 1, c)
SDigits(a, lb, L) ==
  LET ch == SChain(a, lb, 0, 0)  n == Len(ch)
  IN [i \in 1..L |-> ch[n - i + 1]]
\* sum of digit_i * 2^(LogQ - i*lb)
Recompose(ds, lb) ==
  LET RECURSIVE go(_)
      go(i) == IF i = 0 THEN 0 ELSE TAdd(go(i - 1), TShl(TNorm(ds[i]), LogQ - i * lb))
  IN go(Len(ds))
\* the largest recomposition error: d dropped digits, each at most B/2
DropBound(lb, L) ==
  LET d == (LogQ \div lb) - L
      RECURSIVE go(_)
      go(i) == IF i = 0 THEN "0" ELSE ZAdd(ZMul(go(i - 1), ZPow2(lb)), ZPow2(lb - 1))
  IN go(d)

(* ---------------------------------------------------------- polynomials *)
PAdd(a, b) == TLCEval([i \in 1..Len(a) |-> TAdd(a[i], b[i])])
PSub(a, b) == TLCEval([i \in 1..Len(a) |-> TSub(a[i], b[i])])
PZero(n)   == [i \in 1..n |-> 0]
PMul(a, b) == IF Big THEN NegMulW(a, b) ELSE TLCEval(NegMulMod(a, b, Q))
\* a * X^k for any integer k
PMono(a, k) ==
  LET n == Len(a)
      r == k % (2 * n)
      s == r % n
      flip == r >= n
  IN TLCEval([i \in 1..n |->
       LET src == IF i > s THEN a[i - s] ELSE a[n + i - s]
           neg == (i <= s) # flip
       IN IF neg THEN TNeg(src) ELSE src])
PScalar(c, a) == TLCEval([i \in 1..Len(a) |-> TMul(c, a[i])])
\* sum_j u_j * v_j over vectors of polynomials
RECURSIVE PDot(_, _)
PDot(u, v) == IF Len(u) = 1 THEN PMul(u[1], v[1])
              ELSE PAdd(PMul(u[1], v[1]), PDot(Tail(u), Tail(v)))
PMaxErr(a, b) == \* largest |a_i - b_i|, as a numeral
  LET RECURSIVE go(_)
      go(i) == IF i = 0 THEN "0"
               ELSE LET d == ZAbs(ZOf(Cent(TSub(a[i], b[i]))))  r == go(i - 1)
                    IN IF ZLt(r, d) THEN d ELSE r
  IN go(Len(a))
PNear(a, b, zbound) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Within(TSub(a[i], b[i]), zbound)

(* ------------------------------------------------------- LWE, RLWE, RGSW *)
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s)  == s[Len(s)]
RECURSIVE TDot(_, _)
TDot(a, s) == IF Big THEN DotW(a, s)
              ELSE IF a = <<>> THEN 0 ELSE TAdd(TMul(Head(a), Head(s)), TDot(Tail(a), Tail(s)))
LwePhase(c, s)  == TSub(Last(c), TDot(Front(c), s))
RlwePhase(c, s) == PSub(Last(c), PDot(Front(c), s))
LweAdd(c, d)   == [i \in 1..Len(c) |-> TAdd(c[i], d[i])]
\* the phase an RGSW row (block b, level l, both 1-based) must have for message m:
\* m * 2^(LogQ - l*lb) added to component b, i.e. -m*2^(..)*s_b, or +m*2^(..) in the last
RgswRowPhase(m, b, l, lb, s, n) ==
  LET g == TShl(m, LogQ - l * lb)
  IN IF b = Len(s) + 1 THEN [i \in 1..n |-> IF i = 1 THEN g ELSE 0]
     ELSE TLCEval([i \in 1..n |-> TNeg(TMul(g, s[b][i]))])
\* a concrete RGSW ciphertext: masks[b][l] is a sequence of k polynomials and
\* errs[b][l] a polynomial
RgswEncrypt(m, masks, errs, lb, L, s) ==
  LET k == Len(s)  n == Len(s[1])
      row(b, l) ==
        LET mask == masks[b][l]
            body == PAdd(PDot(mask, s), errs[b][l])
            c == Append(mask, body)
            g == TShl(m, LogQ - l * lb)
        IN [c EXCEPT ![b] = [@ EXCEPT ![1] = TAdd(@, g)]]
  IN [r \in 1..((k + 1) * L) |-> row(((r - 1) \div L) + 1, ((r - 1) % L) + 1)]
\* digits of an RLWE ciphertext, polynomial-major, level-minor
RlweDigits(c, lb, L) ==
  LET n == Len(c[1])
      ds(p) == TLCEval([i \in 1..n |-> SDigits(c[p][i], lb, L)])
      all == TLCEval([p \in 1..Len(c) |-> ds(p)])
  IN TLCEval([r \in 1..(Len(c) * L) |->
       [i \in 1..n |-> TNorm(all[((r - 1) \div L) + 1][i][((r - 1) % L) + 1])]])
ExternalProduct(G, c, lb, L) ==
  LET D == RlweDigits(c, lb, L)
  IN TLCEval([j \in 1..Len(c) |-> PDot(D, [r \in 1..Len(D) |-> G[r][j]])])
RlweAdd(c, d) == TLCEval([j \in 1..Len(c) |-> PAdd(c[j], d[j])])
RlweSub(c, d) == TLCEval([j \in 1..Len(c) |-> PSub(c[j], d[j])])
RlweMono(c, k) == TLCEval([j \in 1..Len(c) |-> PMono(c[j], k)])
Cmux(G, c0, c1, lb, L) == RlweAdd(c0, ExternalProduct(G, RlweSub(c1, c0), lb, L))

(* ------------------------------------------------------- bootstrapping *)
\* round(x * 2^out / 2^LogQ) mod 2^out
ModSwitch1(a, out) ==
  ZInt(ZMod(ZDiv(ZAdd(Uns(a), ZPow2(LogQ - out - 1)), ZPow2(LogQ - out)), ZPow2(out)))
ModSwitch(c, out) == [i \in 1..Len(c) |-> IF out = LogQ THEN c[i] ELSE ModSwitch1(c[i], out)]
\* b~ - <a~, s> mod 2N
RECURSIVE IDot(_, _)
IDot(a, s) == IF a = <<>> THEN 0 ELSE Head(a) * Head(s) + IDot(Tail(a), Tail(s))
SwitchedPhase(c, s, out) == (Last(c) - IDot(Front(c), s)) % 2^out
\* the test polynomial of table lut (a sequence over the message space)
TestPoly(lut, p, n) ==
  LET w == n \div Len(lut)
      h == w \div 2
  IN [i \in 1..n |-> IF i + h <= n THEN Encode(lut[((i - 1 + h) \div w) + 1], p)
                     ELSE TNeg(Encode(lut[1], p))]
\* the bits a bootstrapping key encrypts
BskPlain(s, bmmp) ==
  IF bmmp
  THEN [i \in 1..(3 * (Len(s) \div 2)) |->
          LET j == (i - 1) \div 3  u == s[2*j + 1]  v == s[2*j + 2]
          IN CASE (i - 1) % 3 = 0 -> u * v
               [] (i - 1) % 3 = 1 -> u * (1 - v)
               [] OTHER           -> (1 - u) * v]
  ELSE s
\* one step of the accumulator: multiply by X^(a_j s_j)
RotStep(acc, G, a, lb, L) == Cmux(G, acc, RlweMono(acc, a), lb, L)
\* one bundled step: acc + ((X^(a+b)-1)G1 + (X^a-1)G2 + (X^b-1)G3) x acc
GScale(G, k) == TLCEval([r \in 1..Len(G) |-> RlweSub(RlweMono(G[r], k), G[r])])
GAdd(G, H) == TLCEval([r \in 1..Len(G) |-> RlweAdd(G[r], H[r])])
RotStep2(acc, G1, G2, G3, a, b, lb, L) ==
  RlweAdd(acc, ExternalProduct(GAdd(GScale(G1, a + b), GAdd(GScale(G2, a), GScale(G3, b))), acc, lb, L))
SampleExtract(c) ==
  LET n == Len(c[1])  k == Len(c) - 1
  IN TLCEval([i \in 1..(k * n + 1) |->
       IF i = k * n + 1 THEN Last(c)[1]
       ELSE LET p == ((i - 1) \div n) + 1  j == (i - 1) % n
            IN IF j = 0 THEN c[p][1] ELSE TNeg(c[p][n - j + 1])])
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
\* key switching with key rows ksk[i][l] (LWE ciphertexts)
KeySwitch(ksk, c, lb, L) ==
  LET n == Len(ksk[1][1])
      RECURSIVE lv(_, _, _)
      lv(i, ds, l) == IF l = 0 THEN [j \in 1..n |-> 0]
                      ELSE LET r == lv(i, ds, l - 1)
                           IN TLCEval([j \in 1..n |-> TAdd(r[j], TMul(TNorm(ds[l]), ksk[i][l][j]))])
      RECURSIVE go(_)
      go(i) == IF i = 0 THEN [j \in 1..n |-> IF j = n THEN Last(c) ELSE 0]
               ELSE LET r == go(i - 1)  t == lv(i, SDigits(c[i], lb, L), L)
                    IN TLCEval([j \in 1..n |-> TSub(r[j], t[j])])
  IN go(Len(c) - 1)
(* --------------------------------------------------------- noise bounds *)
ZN(n) == ZOf(n)
KsBound(n, lb, L, zE, ones) == ZAdd(ZMul(ZN(n * L), ZMul(ZPow2(lb - 1), zE)), ZMul(ZN(ones), DropBound(lb, L)))
\* external product of an RGSW ciphertext of m with row error <= zE
EpBound(k, n, lb, L, zE) ==
  ZAdd(ZMul(ZN((k + 1) * L * n), ZMul(ZPow2(lb - 1), zE)),
       ZMul(ZN(1 + k * n), DropBound(lb, L)))
\* bundles have three terms, each contributing (X^c - 1) times the row error
BrBound(key, k, n, lb, L, zE, bmmp) ==
  ZMul(ZN(Len(key)),
       IF bmmp THEN ZMul("3", EpBound(k, n, lb, L, ZMul("2", zE))) ELSE EpBound(k, n, lb, L, zE))
=============================================================================
