--------------------------------- MODULE Pip ---------------------------------
(***************************************************************************)
(* Pippenger's multi-scalar multiplication as jaxite_ec organises it, over *)
(* an abstract group (the integers), for all scalars of Win windows of S   *)
(* bits.  Three variants:                                                  *)
(*  "xyzz"   buckets 0..2^S-1 start blank; the addition is partial: adding *)
(*           or doubling a blank, or adding equal or opposite points, gives*)
(*           BAD (absorbing); precomputed zero states steer around blanks; *)
(*           bucket 0 is filled but never read                             *)
(*  "tw"     buckets 1..2^S-1 start neutral, addition is total, digit 0 is *)
(*           dropped; Par lanes of windows handle interleaved points       *)
(*  "signed" buckets 1..2^(S-1), signed digits with carry, sign selects    *)
(*           the negative of the point                                     *)
(* Checked: buckets, windows and result are the specified sums.            *)
(* SkipZero = FALSE is a merge that ignores blank windows (the defect      *)
(* found in the XYZZ window merge).                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS S, Win, NPts, Par, Variants, SkipZero, Random, Shapes, PtKinds
VARIABLES var, sc, i, buckets, zero, b, temp, win, tz, wz, phase, res, w
vars == <<var, sc, i, buckets, zero, b, temp, win, tz, wz, phase, res, w>>
Pts == SubSeq(<<1, 100, 10007, 61>>, 1, NPts)
BAD == 100000003
BLANK == 100000033
RECURSIVE Pw(_)
Pw(n) == IF n = 0 THEN 1 ELSE 2 * Pw(n - 1)
Max == Pw(S)
Half == Pw(S - 1)
N == Len(Pts)
Digit(k, v) == (k \div Pw(v * S)) % Max
RECURSIVE Cin(_, _)
Cin(k, v) == IF v = 0 THEN 0 ELSE IF Digit(k, v - 1) + Cin(k, v - 1) >= Half THEN 1 ELSE 0
SDig(k, v) == LET d == Digit(k, v) + Cin(k, v) IN IF d >= Half THEN d - Max ELSE d
Dig(k, v) == IF var = "signed" THEN SDig(k, v) ELSE Digit(k, v)
Abs(x) == IF x < 0 THEN -x ELSE x
(* group operations of the variant *)
PAdd(x, y) == IF var # "xyzz" THEN x + y
              ELSE IF BAD \in {x, y} \/ BLANK \in {x, y} \/ Abs(x) = Abs(y) THEN BAD ELSE x + y
PDbl(x) == IF x \in {BAD, BLANK} THEN BAD ELSE 2 * x
PZ(x, y, xz, yz) == IF yz THEN x ELSE IF xz THEN y ELSE PAdd(x, y)
PZD(x, y, xz, yz) == IF x = y /\ ~xz /\ ~yz THEN PDbl(x) ELSE PZ(x, y, xz, yz)
Windows == 0..(Win - 1)
Lanes == 0..(Par - 1)
Ds == IF var = "xyzz" THEN 0..(Max - 1) ELSE IF var = "tw" THEN 1..(Max - 1) ELSE 1..Half
Top == IF var = "signed" THEN Pw(Win * S - 1) ELSE Pw(Win * S)     \* no carry out of the top window
E0 == IF var = "xyzz" THEN BLANK ELSE 0
Init == /\ var \in Variants
        /\ \E f \in [1..N -> 0..(Pw(Win * S) - 1)] : sc = f /\ \A j \in 1..N : f[j] < Top
        /\ var = "signed" => \A j \in 1..N : Cin(sc[j], Win) = 0
        /\ i = 0 /\ b = 0 /\ phase = "acc" /\ w = 0 /\ res = 0
        /\ buckets = [g \in Lanes, v \in Windows, d \in Ds |-> E0]
        /\ zero = [g \in Lanes, v \in Windows, d \in Ds |-> TRUE]
        /\ temp = [g \in Lanes, v \in Windows |-> E0] /\ win = temp
        /\ tz = [g \in Lanes, v \in Windows |-> TRUE] /\ wz = tz
\* one scan step: Par consecutive points, lane g takes point i + g + 1
Acc == /\ phase = "acc" /\ i < N
       /\ LET Hit(g, v, d) == Abs(Dig(sc[i + g + 1], v)) = d
              P(g, v) == IF Dig(sc[i + g + 1], v) < 0 THEN -Pts[i + g + 1] ELSE Pts[i + g + 1]
          IN /\ buckets' = [g \in Lanes, v \in Windows, d \in Ds |->
                  IF ~Hit(g, v, d) THEN buckets[g, v, d]
                  ELSE IF var = "xyzz" /\ zero[g, v, d] THEN P(g, v) ELSE PAdd(buckets[g, v, d], P(g, v))]
             /\ zero' = [g \in Lanes, v \in Windows, d \in Ds |-> zero[g, v, d] /\ ~Hit(g, v, d)]
       /\ i' = i + Par /\ UNCHANGED <<var, sc, b, temp, win, tz, wz, phase, res, w>>
AccEnd == phase = "acc" /\ i = N /\ phase' = "red" /\ b' = (IF var = "signed" THEN Half ELSE Max - 1)
          /\ UNCHANGED <<var, sc, i, buckets, zero, temp, win, tz, wz, res, w>>
\* running sums from the top bucket down to bucket 1
Red == /\ phase = "red" /\ b > 0
       /\ LET t2 == [g \in Lanes, v \in Windows |->
                       IF var = "xyzz" THEN PZ(temp[g, v], buckets[g, v, b], tz[g, v], zero[g, v, b]) ELSE PAdd(temp[g, v], buckets[g, v, b])]
              tz2 == [g \in Lanes, v \in Windows |-> tz[g, v] /\ zero[g, v, b]]
          IN /\ temp' = t2 /\ tz' = tz2
             /\ win' = [g \in Lanes, v \in Windows |->
                          IF var = "xyzz" THEN PZD(win[g, v], t2[g, v], wz[g, v], tz2[g, v]) ELSE PAdd(win[g, v], t2[g, v])]
             /\ wz' = [g \in Lanes, v \in Windows |-> wz[g, v] /\ tz2[g, v]]
       /\ b' = b - 1 /\ UNCHANGED <<var, sc, i, buckets, zero, phase, res, w>>
RECURSIVE LaneSum(_, _)
LaneSum(g, v) == IF g < 0 THEN 0 ELSE win[g, v] + LaneSum(g - 1, v)
\* sum of the lanes (batch window summation); the XYZZ variant has one lane
WinOf(v) == IF var = "xyzz" THEN win[0, v] ELSE LaneSum(Par - 1, v)
RedEnd == phase = "red" /\ b = 0 /\ phase' = "merge" /\ res' = WinOf(Win - 1) /\ w' = Win - 2
          /\ UNCHANGED <<var, sc, i, buckets, zero, b, temp, win, tz, wz>>
RECURSIVE Shl(_, _)
Shl(x, n) == IF n = 0 THEN x ELSE Shl(PDbl(x), n - 1)
MStep(r, x) ==
  IF var = "xyzz" /\ SkipZero
  THEN PZ(IF r = BLANK THEN r ELSE Shl(r, S), x, r = BLANK, x = BLANK)
  ELSE PAdd(Shl(r, S), x)
Merge == /\ phase = "merge" /\ w >= 0 /\ res' = MStep(res, WinOf(w)) /\ w' = w - 1
         /\ UNCHANGED <<var, sc, i, buckets, zero, b, temp, win, tz, wz, phase>>
Done == phase = "merge" /\ w < 0 /\ phase' = "done" /\ UNCHANGED <<var, sc, i, buckets, zero, b, temp, win, tz, wz, res, w>>
(* ------------------------------ what must hold -------------------------- *)
RECURSIVE SumOver(_, _)
SumOver(A, f) == IF A = {} THEN 0 ELSE LET x == CHOOSE y \in A : TRUE IN f[x] + SumOver(A \ {x}, f)
Den(x) == IF x = BLANK THEN 0 ELSE x
BucketsOk == phase = "red" => \A g \in Lanes, v \in Windows, d \in Ds \ {0} :
   Den(buckets[g, v, d]) = SumOver({j \in 1..N : (j - 1) % Par = g /\ Abs(Dig(sc[j], v)) = d},
                                   [j \in 1..N |-> IF Dig(sc[j], v) < 0 THEN -Pts[j] ELSE Pts[j]])
WindowsOk == phase = "merge" => \A v \in Windows :
   Den(WinOf(v)) = SumOver(1..N, [j \in 1..N |-> Dig(sc[j], v) * Pts[j]])
ResultOk == phase = "done" => Den(res) = SumOver(1..N, [j \in 1..N |-> sc[j] * Pts[j]])
Run == Acc \/ AccEnd \/ Red \/ RedEnd \/ Merge \/ Done
(* ------------------------------ generator ------------------------------- *)
Pick == /\ Random /\ phase = "gen" /\ i < 8
        /\ \E x \in Shapes : sc' = Append(sc, x)
        /\ \E y \in PtKinds : buckets' = Append(buckets, y)
        /\ i' = i + 1
        /\ UNCHANGED <<var, zero, b, temp, win, tz, wz, phase, res, w>>
Emit == /\ Random /\ phase = "gen" /\ i = 8 /\ PrintT("GEN|" \o ToJson([s |-> sc, p |-> buckets]))
        /\ i' = 9 /\ UNCHANGED <<var, sc, buckets, zero, b, temp, win, tz, wz, phase, res, w>>
GenInit == /\ var = "" /\ sc = <<>> /\ buckets = <<>> /\ i = 0 /\ phase = "gen"
           /\ zero = 0 /\ b = 0 /\ temp = 0 /\ win = 0 /\ tz = 0 /\ wz = 0 /\ res = 0 /\ w = 0
Spec == Init /\ [][Run]_vars
GenSpec == GenInit /\ [][Pick \/ Emit]_vars
=============================================================================
