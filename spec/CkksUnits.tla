----------------------------- MODULE CkksUnits -----------------------------
(* Exhaustive checks, at toy sizes, that the algorithm level of Ckks.tla    *)
(* satisfies its property level: every state is one input.                  *)
EXTENDS Ckks
CONSTANTS MaxM, Chains, Convs, NttCases

ChainsQ == <<<<7, 5>>, <<5, 17>>, <<3, 5, 7>>, <<11, 3, 13>>>>
ChainsD == ChainsQ \o <<<<13, 17, 19>>, <<5, 7, 11, 13>>, <<7, 31, 23>>>>
ConvsQ == <<<<<<3, 5>>, <<7>>>>, <<<<5, 7>>, <<11, 13>>>>, <<<<3, 5, 7>>, <<11>>>>, <<<<13>>, <<5, 7, 17>>>>>>
ConvsD == ConvsQ \o <<<<<<11, 13, 17>>, <<5>>>>, <<<<3, 5, 7, 11>>, <<13, 17>>>>>>
NttQ == <<<<2, 13, 0..12>>, <<4, 17, {0, 1, 2, 8, 16}>>>>
NttD == <<<<2, 13, 0..12>>, <<2, 29, 0..28>>, <<4, 17, {0, 1, 2, 5, 8, 13, 16}>>>>

VARIABLE c
Starts == {<<"barrett0", m>> : m \in 2..MaxM}
          \cup {<<"rescale0", i>> : i \in 1..Len(Chains)}
          \cup {<<"bconv0", i>> : i \in 1..Len(Convs)}
          \cup UNION {{<<"ntt0", i, a1>> : a1 \in NttCases[i][3]} : i \in 1..Len(NttCases)}
Successors(s) ==
  CASE s[1] = "barrett0" -> {<<"barrett", s[2], z>> : z \in 0..(s[2] * s[2] - 1)}
    [] s[1] = "rescale0" -> {<<"rescale", s[2], x>> : x \in 0..(ZInt(QOf(Chains[s[2]])) - 1)}
    [] s[1] = "bconv0" -> {<<"bconv", s[2], x>> : x \in 0..(ZInt(QOf(Convs[s[2]][1])) - 1)}
          \cup (IF Len(Convs[s[2]][2]) = 1
               THEN {<<"down", s[2], x>> : x \in 0..(ZInt(QOf(Convs[s[2]][1] \o Convs[s[2]][2])) - 1)} ELSE {})
    [] s[1] = "ntt0" -> LET n == NttCases[s[2]][1]  q == NttCases[s[2]][2]  A == NttCases[s[2]][3] IN
          {<<"ntt", s[2], <<s[3]>> \o a, b>> : a \in [1..(n - 1) -> A], b \in [1..n -> {0, 1, q - 1}]}
    [] OTHER -> {}

Res(x, qs) == [i \in 1..Len(qs) |-> x % qs[i]]

BarrettInv == c[1] = "barrett" => BarrettAlg(c[3], c[2]) = c[3] % c[2]
RescaleInv == c[1] = "rescale" =>
  LET qs == Chains[c[2]] IN
  \A num \in 1..(Len(qs) - 1) :
    LET y == RescaleAlg(Res(c[3], qs), qs, num)
        rem == SubSeq(qs, 1, Len(qs) - num)
    IN RescaleOk(<<ZOf(c[3])>>, <<ZCrt(ZS(y), ZS(rem))>>, qs, num)
BconvInv == c[1] = "bconv" =>
  LET f == Convs[c[2]][1]  t == Convs[c[2]][2] IN
  BconvOk(Res(c[3], f), f, BconvAlg(Res(c[3], f), f, t), t)
\* mod-down from (target \o source) by the product of the source moduli
DownInv == c[1] = "down" =>
  LET p == Convs[c[2]][1]  q == Convs[c[2]][2]
      P == ZInt(QOf(p))  Q == ZInt(QOf(q))
      y == ZInt(ZCrt(ZS(ModDownAlg(Res(c[3], q \o p), q, p)), ZS(q)))
  IN \E e \in 0..(Len(p) * P - 1) : (P * y - c[3] + e) % (P * Q) = 0
NttInv == c[1] = "ntt" =>
  LET n == NttCases[c[2]][1]  q == NttCases[c[2]][2]  psi == MinRoot(2 * n, q)
      a == c[3]  b == c[4]
      ea == NttEval(a, q, psi)
      za == ZS(a)
  IN /\ NttInterp(ea, q, psi) = a
     /\ VecMulMod(ea, NttEval(b, q, psi), q) = NttEval(NegMulMod(a, b, q), q, psi)
     \* X -> X^-1 reverses the bit-reversed evaluation vector
     /\ [i \in 1..n |-> ea[n + 1 - i]] =
           NttEval(Reduce(VAut(za, 2 * n - 1), <<q>>)[1], q, psi)
     \* automorphisms compose
     /\ \A g, h \in {x \in 1..(2 * n - 1) : x % 2 = 1} : VAut(VAut(za, g), h) = VAut(za, (g * h) % (2 * n))

Init == c \in Starts
Next == c' \in Successors(c)
Spec == Init /\ [][Next]_c
=============================================================================
