--------------------------- MODULE ArithSelfTest ---------------------------
(* Every Java override of Arith.tla agrees with its TLA+ definition on the  *)
(* whole of a small domain (where TLC can evaluate the definition), and     *)
(* satisfies the defining algebraic identity on large numbers.              *)
EXTENDS Arith

S == -13..13
P == 1..9
ZS == {Rep(x) : x \in S}
ZP == {Rep(x) : x \in P}

ScalarOK ==
  /\ \A a, b \in ZS : /\ ZAdd(a, b) = ZAddDef(a, b)
                      /\ ZSub(a, b) = ZSubDef(a, b)
                      /\ ZMul(a, b) = ZMulDef(a, b)
                      /\ ZCmp(a, b) = ZCmpDef(a, b)
  /\ \A a \in ZS, b \in ZP : /\ ZDiv(a, b) = ZDivDef(a, b)
                             /\ ZMod(a, b) = ZModDef(a, b)
                             /\ ZInvMod(a, b) = ZInvModDef(a, b)
                             /\ ZLe(b, a) => ZDigit(a, 1, 2) = (Val(a) \div 2) % 4
                             /\ ZBit(a, 1) = (Val(a) \div 2) % 2
  /\ \A a \in ZS, e \in {Rep(x) : x \in 0..6}, m \in ZP : ZPowMod(a, e, m) = ZPowModDef(a, e, m)
  /\ \A k \in 0..20 : ZPow2(k) = ZPow2Def(k)
  /\ \A a \in S : ZOf(a) = Rep(a) /\ ZInt(Rep(a)) = a /\ Val(Rep(a)) = a
  /\ \A a, b \in S, q \in P : /\ AddMod(a, b, q) = AddModDef(a, b, q)
                              /\ SubMod(a, b, q) = SubModDef(a, b, q)
                              /\ MulMod(a, b, q) = MulModDef(a, b, q)
  /\ \A a \in 0..8, e \in 0..6, q \in P : PowMod(a, e, q) = PowModDef(a, e, q)

Vecs3 == [1..3 -> -2..2]
VecOK ==
  /\ \A a, b \in Vecs3 :
       /\ NegMulMod(a, b, 7) = NegMulModDef(a, b, 7)
       /\ NegMulW(a, b) = [k \in 1..3 |-> SumI([i \in 1..3 |->
              IF i <= k THEN a[i] * b[k - i + 1] ELSE -(a[i] * b[3 + k - i + 1])])]
       /\ [k \in 1..3 |-> Val(ZNegMul([i \in 1..3 |-> Rep(a[i])], [i \in 1..3 |-> Rep(b[i])])[k])]
            = NegMulW(a, b)
       /\ DotW(a, b) = SumI([i \in 1..3 |-> a[i] * b[i]])
       /\ VecAddW(a, b) = [i \in 1..3 |-> a[i] + b[i]]
       /\ VecSubW(a, b) = [i \in 1..3 |-> a[i] - b[i]]
       /\ VecNegW(a) = [i \in 1..3 |-> -a[i]]
       /\ VecAddMod(a, b, 5) = [i \in 1..3 |-> (a[i] + b[i]) % 5]
       /\ VecSubMod(a, b, 5) = [i \in 1..3 |-> (a[i] - b[i]) % 5]
       /\ VecMulMod(a, b, 5) = [i \in 1..3 |-> (a[i] * b[i]) % 5]
       /\ ZSumSeq([i \in 1..3 |-> Rep(a[i])]) = Rep(SumI(a))
       /\ ZProdSeq([i \in 1..3 |-> Rep(a[i])]) = Rep(a[1] * a[2] * a[3])
  /\ \A x \in 0..104 : ZCrt(<<Rep(x % 3), Rep(x % 5), Rep(x % 7)>>, <<"3", "5", "7">>) = Rep(x)

Big == {"0", "1", "-1", "4294967295", "4294967296", "-2147483648", "18446744073709551615",
        "258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177"}
BigOK ==
  /\ \A a, b \in Big : /\ ZSub(ZAdd(a, b), b) = a
                       /\ ZMul(a, b) = ZMul(b, a)
                       /\ ZAdd(ZMul(a, b), a) = ZMul(a, ZAdd(b, "1"))
                       /\ ZCmp(a, b) = -ZCmp(b, a)
  /\ \A a \in Big, b \in Big : ZLt("0", b) =>
        /\ ZAdd(ZMul(ZDiv(a, b), b), ZMod(a, b)) = a
        /\ ZLe("0", ZMod(a, b)) /\ ZLt(ZMod(a, b), b)
  /\ \A a \in Big : /\ ZLe("-2147483648", ZWrap(a)) /\ ZLt(ZWrap(a), "2147483648")
                    /\ ZMod(ZSub(a, ZWrap(a)), ZPow2(32)) = "0"
  /\ \A x, y \in {0, 1, -1, 65536, 2147483647, -2147483647} :
        /\ WAdd(x, y) = ZInt(ZWrap(ZAdd(ZOf(x), ZOf(y))))
        /\ WSub(x, y) = ZInt(ZWrap(ZSub(ZOf(x), ZOf(y))))
        /\ WMul(x, y) = ZInt(ZWrap(ZMul(ZOf(x), ZOf(y))))
        /\ WUns(x) = ZMod(ZOf(x), ZPow2(32))
        /\ DotW(<<x, y>>, <<y, x>>) = WAdd(WMul(x, y), WMul(x, y))
        /\ MulMod(x, y, 2147483629) = ZInt(ZMod(ZMul(ZOf(x), ZOf(y)), "2147483629"))

NttOK ==
  /\ \A p \in {<<4, 17>>, <<2, 5>>, <<2, 13>>, <<8, 97>>, <<1, 7>>} :
       LET n == p[1]  q == p[2]  psi == MinRootDef(2 * n, q) IN
       /\ MinRoot(2 * n, q) = psi
       /\ \A t \in 0..5 : LET a == [k \in 1..n |-> (k * k * t + 3 * t - 40 * (k % 2)) ] IN
            /\ NttEval(a, q, psi) = NttEvalDef(a, q, psi)
            /\ NttEval(a, q, 3) = NttEvalDef(a, q, 3)
            /\ NttInterp(a, q, psi) = NttInterpDef(a, q, psi)
            /\ NttInterp(NttEval(a, q, psi), q, psi) = [k \in 1..n |-> a[k] % q]
            /\ VecMulMod(NttEval(a, q, psi), NttEval(a, q, psi), q) = NttEval(NegMulModDef(a, a, q), q, psi)
  /\ \A x \in 0..60 : ZSqrt(Rep(x)) = ZSqrtDef(Rep(x))
  /\ LET q == 2147482817  psi == MinRoot(8, q)  a == <<q - 1, 5, 7, q - 2>> IN
       NttInterp(NttEval(a, q, psi), q, psi) = a

VARIABLE done
Init == done = FALSE
Next == /\ ~done
        /\ Assert(ScalarOK, "ScalarOK")
        /\ Assert(VecOK, "VecOK")
        /\ Assert(BigOK, "BigOK")
        /\ Assert(NttOK, "NttOK")
        /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
