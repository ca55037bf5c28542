------------------------------ MODULE CggiTrace ------------------------------
(***************************************************************************)
(* Judges recorded executions of jaxite.jaxite_cggi (LogQ = 32): every     *)
(* line is one call of the real code with its arguments (including all the *)
(* randomness it drew) and results; Clauses says what the specification    *)
(* demands of it.                                                          *)
(***************************************************************************)
EXTENDS Cggi, TraceIO
VARIABLE l
E == Trace[l]

Mod2(x, k) == ZMod(Uns(x), ZPow2(k))            \* numeral of x mod 2^k
PEqMod(a, b, k) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Mod2(a[i], k) = Mod2(b[i], k)
Ones(s) == Cardinality({i \in 1..Len(s) : s[i] = 1})

(* ------------------------------------------------------------- clauses *)
CEncode == IF EncodeOk(E.m, E.p)
           THEN << <<"encode accepts every message in range", E.ok>>,
                   <<"encode places the message above the error bits and leaves padding and error bits zero",
                     E.ok => E.out = Encode(E.m, E.p)>> >>
           ELSE << <<"encode rejects an out-of-range message", ~E.ok>> >>
CDecode == << <<"remove_noise rounds to the nearest multiple of the encoding step", E.rm = RemoveNoise(E.x, E.p)>>,
              <<"decode returns the message bits of the rounded plaintext", E.dec = ZDecodeBits(E.x, E.p, E.p.msg)>>,
              <<"decode_without_removing_padding returns message and padding bits",
                 E.decpad = ZDecodeBits(E.x, E.p, E.p.msg + E.p.pad)>>,
              <<"extract_noise returns the signed distance to the encoded message", E.noise = Noise(E.x, E.p)>> >>
\* decode(encode(m) + e) = m and extract_noise = e for |e| below half a step
CRound == << <<"decode undoes encode under admissible noise", E.dec = ZOf(E.m)>>,
             <<"extract_noise recovers the added noise", E.noise = E.err>> >>

DigitsOk(x, d, lb, L) ==
  /\ Len(d) = L
  /\ \A i \in 1..L : ZLe(ZNeg(ZPow2(lb - 1)), ZOf(d[i])) /\ ZLt(ZOf(d[i]), ZPow2(lb - 1))
RecompOk(x, d, lb, L) == Within(TSub(x, Recompose(d, lb)), DropBound(lb, L))
CSdec == << <<"signed digits lie in [-B/2, B/2)", \A i \in 1..Len(E.x) : DigitsOk(E.x[i], E.digits[i], E.lb, E.L)>>,
            <<"signed digits recompose to the value within the dropped precision",
               \A i \in 1..Len(E.x) : RecompOk(E.x[i], E.digits[i], E.lb, E.L)>> >>
CUdec == << <<"unsigned decomposition returns the leading base-B digits",
               \A i \in 1..Len(E.x) : E.digits[i] = UDigits(E.x[i], E.lb, E.L, E.tot)>>,
            <<"recompose returns the truncated value",
               \A i \in 1..Len(E.x) :
                 Uns(E.out[i]) = ZMul(ZDiv(Uns(E.x[i]), ZPow2(E.tot - E.L * E.lb)), ZPow2(E.tot - E.L * E.lb))>> >>
CSummands == << <<"summand l is the value scaled by 2^(32 - l*log_base)",
                  E.out = [i \in 1..E.L |-> TShl(E.x, LogQ - i * E.lb)]>> >>
CDecRlwe ==
  LET n == Len(E.ct[1])
      dg(p, j) == [i \in 1..E.L |-> E.out[(p - 1) * E.L + i][j]]
  IN << <<"decomposed ciphertext has (k+1)*L rows", Len(E.out) = Len(E.ct) * E.L>>,
        <<"row (polynomial, level) holds the level-th digit of that polynomial",
          \A p \in 1..Len(E.ct), j \in 1..n :
            DigitsOk(E.ct[p][j], dg(p, j), E.lb, E.L) /\ RecompOk(E.ct[p][j], dg(p, j), E.lb, E.L)>> >>
\* gadget matrix entries are given scaled by B^L, digits as integers
CGadget ==
  LET G == E.mat
      at(i, c) == IF (c - 1) \div E.L = i - 1 THEN 2^(E.lb * (E.L - ((c - 1) % E.L) - 1)) ELSE 0
      dot(i) == IDot(E.digits, G[i])
  IN << <<"gadget matrix is the block diagonal of 1/B .. 1/B^L",
          \A i \in 1..E.n : \A c \in 1..(E.n * E.L) : G[i][c] = at(i, c)>>,
        <<"inverse gadget digits are in [0, B)", \A i \in 1..Len(E.digits) : E.digits[i] \in 0..(2^E.lb - 1)>>,
        <<"inverse gadget times gadget matrix reproduces the vector",
          \A i \in 1..E.n : dot(i) = E.v[i]>> >>

LwePhaseOk(c, s, want, lq) == Len(c) = Len(s) + 1 /\ Mod2(LwePhase(c, s), lq) = Mod2(want, lq)
CLweEnc ==
  << <<"ciphertext has dimension + 1 entries", Len(E.ct) = Len(E.s) + 1>>,
     <<"phase of an encryption is message plus the sampled noise",
        LwePhaseOk(E.ct, E.s, TAdd(E.m, E.err), E.lq)>>,
     <<"decryption without denoising returns the phase", Mod2(E.raw, E.lq) = Mod2(LwePhase(E.ct, E.s), E.lq)>>,
     <<"decryption rounds the phase to the encoding grid",
        Mod2(E.dec, E.lq) = Mod2(RemoveNoise(E.raw, E.p), E.lq)>> >>
CEmbed == << <<"noiseless embedding has the message as phase under every key",
               Len(E.ct) = Len(E.s) + 1 /\ LwePhase(E.ct, E.s) = E.m>> >>
CKey == << <<"secret keys are binary and of the declared shape",
              Len(E.s) = E.n /\ \A i \in 1..Len(E.s) : E.s[i] \in {0, 1}>> >>
CLwePhaseOnly == << <<"linear combination of ciphertexts has the combination of the phases",
                      LwePhase(E.ct, E.s) = E.want>>,
                    <<"and decrypts to it", E.raw = E.want>> >>
CRlweEnc ==
  LET want == PAdd(E.m, E.err)  ph == RlwePhase(E.ct, E.s)
  IN << <<"RLWE phase is message plus the sampled noise", PEqMod(ph, want, E.lq)>>,
        <<"RLWE decryption rounds the phase to the encoding grid",
           PEqMod(E.dec, [i \in 1..Len(ph) |-> RemoveNoise(OfUns(Mod2(ph[i], E.lq)), E.p)], E.lq)>> >>
CTrivial == << <<"a trivial encryption has the polynomial as phase under every key",
                 RlwePhase(E.ct, E.s) = E.m>> >>
RowsOk(G, m, s, lb, L, zE) ==
  LET k == Len(s)  n == Len(s[1])
  IN /\ Len(G) = (k + 1) * L
     /\ \A b \in 1..(k + 1), lv \in 1..L :
          PNear(RlwePhase(G[(b - 1) * L + lv], s), RgswRowPhase(m, b, lv, lb, s, n), zE)
CRgswEnc == << <<"every RGSW row encrypts the message times its gadget entry", RowsOk(E.G, E.m, E.s, E.lb, E.L, E.E)>>,
               <<"RGSW decryption returns the message", E.dec = E.m>> >>
CExtract == << <<"sample extraction preserves the constant coefficient under the flattened key",
                  LwePhase(E.out, E.flat) = RlwePhase(E.ct, E.s)[1]>>,
               <<"the flattened key lists the coefficients of the ring key", E.flat = Flatten(E.s)>> >>

CPmul == << <<"polynomial product is the negacyclic product modulo 2^32", E.out = PMul(E.a, E.b)>> >>
CPmulList == << <<"row-wise products are negacyclic products",
                  \A i \in 1..Len(E.b) : E.out[i] = PMul(IF E.const THEN E.a[1] ELSE E.a[i], E.b[i])>> >>
CPmulMat == << <<"matrix of products by one polynomial", \A i \in 1..Len(E.b), j \in 1..Len(E.b[1]) : E.out[i][j] = PMul(E.a, E.b[i][j])>> >>
CPdot == << <<"polynomial dot product is the sum of negacyclic products", E.out = PDot(E.a, E.b)>> >>
CMatvec == << <<"byte-split product equals the product modulo 2^32",
                E.out = [j \in 1..Len(E.rhs[1]) |-> DotW(E.lhs, [i \in 1..Len(E.lhs) |-> E.rhs[i][j]])]>> >>
CVmpm == << <<"vector-matrix polynomial product is exact modulo 2^32",
              E.out = [j \in 1..Len(E.mat[1]) |-> PDot(E.vec, [r \in 1..Len(E.vec) |-> E.mat[r][j]])]>> >>
CMono == << <<"monomial product rotates with sign for every exponent",
              \A i \in 1..Len(E.a) : PEqMod(E.out[i], PMono(E.a[i], E.k), E.lq)>>,
            <<"results are reduced modulo 2^log_modulus",
              E.lq < 32 => \A i \in 1..Len(E.out) : \A j \in 1..Len(E.out[i]) :
                              E.out[i][j] >= 0 /\ ZLt(ZOf(E.out[i][j]), ZPow2(E.lq))>> >>
OnePoly(n) == [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0]
CXpow == << <<"x^n - 1 modulo X^N + 1", E.out = PSub(PMono(OnePoly(E.n), E.k), OnePoly(E.n))>> >>
CScale == << <<"scaling by x^n - 1", \A i \in 1..Len(E.mat), j \in 1..Len(E.mat[1]) :
                 PEqMod(E.out[i][j], PSub(PMono(E.mat[i][j], E.k), E.mat[i][j]), E.lq)>> >>
CIdiv == << <<"integer division rounds to nearest, ties up",
              \A i \in 1..Len(E.x) : E.out[i] = ZDiv(ZAdd(ZMul("2", E.x[i]), E.d), ZMul("2", E.d))>> >>
CToep == << <<"toeplitz row i is the input rolled right i times",
              LET n == Len(E.x) IN E.out = [i \in 1..n |-> [j \in 1..n |-> E.x[((j - i) % n) + 1]]]>> >>
CNToep == << <<"row i of the kernelised toeplitz matrix is the input rolled right i times, wrapped entries negated",
              LET n == Len(E.x) IN E.out = [i \in 1..n |-> [j \in 1..n |->
                IF j >= i THEN E.x[j - i + 1] ELSE TNeg(E.x[((j - i) % n) + 1])]]>> >>
CMatmat == << <<"byte-split matrix product equals the product modulo 2^32",
                E.out = [i \in 1..Len(E.lhs) |-> [j \in 1..Len(E.rhs[1]) |-> DotW(E.lhs[i], [k \in 1..Len(E.rhs) |-> E.rhs[k][j]])]]>> >>
CZmat == << <<"byte-matrix modular product equals the product modulo q",
              LET q == E.q IN
              \A i \in 1..Len(E.a), k \in 1..Len(E.b[1]) :
                 ZMod(E.out[i][k], q) = ZMod(ZSumSeq([j \in 1..Len(E.b) |-> ZMul(E.a[i][j], E.b[j][k])]), q)>> >>
CChunks == << <<"chunks recombine to the value and fit their width",
                \A i \in 1..Len(E.x) :
                  /\ ZSumSeq([c \in 1..Len(E.out[i]) |-> ZMul(ZOf(E.out[i][c]), ZPow2(E.w * (c - 1)))]) = E.x[i]
                  /\ \A c \in 1..Len(E.out[i]) : E.out[i][c] \in 0..(2^E.w - 1)>> >>

\* key switching
CKsk == << <<"key-switching key row (i, l) encrypts key bit i times 2^(32 - l*log_base)",
             /\ Len(E.rows) = Len(E.sin)
             /\ \A i \in 1..Len(E.sin) : Len(E.rows[i]) = E.L /\
                \A lv \in 1..E.L :
                  Within(TSub(LwePhase(E.rows[i][lv], E.sout), TShl(E.sin[i], LogQ - lv * E.lb)), E.E)>> >>
CSwitch == << <<"switched ciphertext has the target dimension", Len(E.out) = Len(E.sout) + 1>>,
              <<"key switching preserves the phase within rounding and key noise",
                 Within(TSub(LwePhase(E.out, E.sout), LwePhase(E.ct, E.sin)),
                        KsBound(Len(E.sin), E.lb, E.L, E.E, Ones(E.sin)))>> >>
CModsw == << <<"modulus switching rounds every coordinate to the nearest step",
               \A i \in 1..Len(E.ct) :
                 ZOf(E.out[i]) =
                   ZMod(ZDiv(ZAdd(Uns(E.ct[i]), IF E.lin = E.lout THEN "0" ELSE ZPow2(E.lin - E.lout - 1)), ZPow2(E.lin - E.lout)), ZPow2(E.lout))>> >>

Dims == [k |-> Len(E.s), n |-> Len(E.s[1])]
CExtProd == << <<"external product multiplies the phase by the encrypted bit",
                 PNear(RlwePhase(E.out, E.s), PScalar(E.m, RlwePhase(E.ct, E.s)),
                       EpBound(Dims.k, Dims.n, E.lb, E.L, E.E))>> >>
CCmux == << <<"cmux returns the phase of the selected branch",
              PNear(RlwePhase(E.out, E.s), RlwePhase(IF E.m = 1 THEN E.c1 ELSE E.c0, E.s),
                    EpBound(Dims.k, Dims.n, E.lb, E.L, E.E))>> >>
CBsk == LET bits == BskPlain(E.key, E.bmmp) IN
        << <<"bootstrapping key has one ciphertext per key bit (bundle)", Len(E.rows) = Len(bits)>>,
           <<"bootstrapping key entries encrypt the key-bit products in order",
              Len(E.rows) = Len(bits) =>
                \A i \in 1..Len(bits) : RowsOk(E.rows[i], bits[i], E.s, E.lb, E.L, E.E)>> >>
Rot(a, key, n) == (Last(a) - IDot(Front(a), key)) % (2 * n)
CBlind == << <<"blind rotation multiplies the phase by X^-(b - <a,s>)",
               PNear(RlwePhase(E.out, E.s), PMono(RlwePhase(E.ct, E.s), -Rot(E.idx, E.key, Dims.n)),
                     BrBound(E.key, Dims.k, Dims.n, E.lb, E.L, E.E, E.bmmp))>> >>
CTestPoly == << <<"test polynomial repeats each table entry over its block, first block split and negated",
                  E.out = TestPoly(E.lut, E.p, E.n)>> >>

(* one complete bootstrap with its stages *)
CBoot ==
  LET n == Dims.n  k == Dims.k
      lo == E.logn + 1
      tp == RlwePhase(E.tp, E.s)
      rotB == BrBound(E.key, k, n, E.lb, E.L, E.E, E.bmmp)
      ksB == KsBound(k * n, E.klb, E.kL, E.kE, k * n)
      idx == SwitchedPhase(E.switched, E.key, lo)
      w == n \div Len(E.lut)
      d == ((idx - E.m * w + n) % (2 * n)) - n
      inBlock == -(w \div 2) <= d /\ d < w \div 2
      outPhase == LwePhase(E.out, E.key)
  IN << <<"stage 1: modulus switching rounds every coordinate", E.switched = ModSwitch(E.ct, lo)>>,
        <<"stage 2: blind rotation by the switched phase",
           PNear(RlwePhase(E.rotated, E.s), PMono(tp, -idx), rotB)>>,
        <<"stage 3: extraction preserves the constant coefficient",
           LwePhase(E.extracted, Flatten(E.s)) = RlwePhase(E.rotated, E.s)[1]>>,
        <<"stage 4: key switching preserves the phase",
           Within(TSub(outPhase, LwePhase(E.extracted, Flatten(E.s))), ksB)>>,
        <<"bootstrapping returns the table entry of the message",
           inBlock => Decode(outPhase, E.p) = E.lut[E.m + 1]>>,
        <<"output noise is bounded independently of the input noise",
           inBlock => Within(TSub(outPhase, Encode(E.lut[E.m + 1], E.p)), ZAdd(rotB, ksB))>>,
        <<"admissible input noise stays in the block", E.adm => inBlock>>,
        <<"the jitted pipeline returns the same ciphertext", E.jit = E.out>> >>

Clauses ==
  CASE E.e = "encode" -> CEncode [] E.e = "decode" -> CDecode [] E.e = "round" -> CRound
    [] E.e = "sdec" -> CSdec [] E.e = "udec" -> CUdec [] E.e = "summands" -> CSummands
    [] E.e = "decrlwe" -> CDecRlwe [] E.e = "gadget" -> CGadget
    [] E.e = "lweenc" -> CLweEnc [] E.e = "embed" -> CEmbed [] E.e = "key" -> CKey
    [] E.e = "lwelin" -> CLwePhaseOnly
    [] E.e = "rlweenc" -> CRlweEnc [] E.e = "trivial" -> CTrivial
    [] E.e = "rgswenc" -> CRgswEnc [] E.e = "extract" -> CExtract
    [] E.e = "pmul" -> CPmul [] E.e = "pmullist" -> CPmulList [] E.e = "pmulmat" -> CPmulMat
    [] E.e = "pdot" -> CPdot [] E.e = "matvec" -> CMatvec [] E.e = "vmpm" -> CVmpm
    [] E.e = "mono" -> CMono [] E.e = "xpow" -> CXpow [] E.e = "scale" -> CScale
    [] E.e = "idiv" -> CIdiv [] E.e = "toep" -> CToep [] E.e = "zmat" -> CZmat
    [] E.e = "ntoep" -> CNToep [] E.e = "matmat" -> CMatmat
    [] E.e = "chunks" -> CChunks
    [] E.e = "ksk" -> CKsk [] E.e = "switch" -> CSwitch [] E.e = "modsw" -> CModsw
    [] E.e = "extprod" -> CExtProd [] E.e = "cmux" -> CCmux [] E.e = "bsk" -> CBsk
    [] E.e = "blind" -> CBlind [] E.e = "testpoly" -> CTestPoly [] E.e = "boot" -> CBoot
    [] E.e = "raise" -> Raised(E)
    [] E.e = "reject" -> << <<"invalid arguments are rejected: " \o E.what, ~E.ok>> >>
    [] E.e = "end" -> <<>>

Init == l = 1
Next == l <= Len(Trace) /\ Judge(l, Clauses) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
