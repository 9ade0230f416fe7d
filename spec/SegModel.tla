------------------------------ MODULE SegModel ------------------------------
(* The closest pair of two segments, found step by step: the foot on the line  *)
(* of the second segment within the first one, the matching parameter, and     *)
(* back if that one left its segment. Against the exact closest pairs.         *)
EXTENDS Geom, TLC
CONSTANTS Ext, Far
VARIABLES g, t, u, pc
vars == <<g, t, u, pc>>
C == -Ext..Ext
\* by symmetry the first segment starts at the origin
Dir == {v \in C \X C \X C : v = O3 \/ (v[1] >= 0 /\ v[2] >= 0 /\ v[3] >= 0)}
Pt == (-Far..Far) \X (-Far..Far) \X (-Far..Far)
Clamp(x) == IF RLt(x, Zero) THEN Zero ELSE IF RLt(One, x) THEN One ELSE x
d1 == g[1]
d2 == Sub3(g[3], g[2])
rr == Neg3(g[2])
A1 == Dot(d1, d1)
B1 == Dot(d1, d2)
C1 == Dot(d2, d2)
D1 == Dot(d1, rr)
E1 == Dot(d2, rr)
Init == g \in Dir \X Pt \X Pt /\ t = Zero /\ u = Zero /\ pc = "first"
First == /\ pc = "first" /\ pc' = "second" /\ UNCHANGED <<g, u>>
         /\ t' = IF A1 * C1 - B1 * B1 > 0 THEN Clamp(Norm(B1 * E1 - C1 * D1, A1 * C1 - B1 * B1)) ELSE Zero
Second == /\ pc = "second" /\ pc' = "back" /\ UNCHANGED <<g, t>>
          /\ u' = IF C1 > 0 THEN RDiv(RAdd(RMul(R(B1), t), R(E1)), R(C1)) ELSE Zero
Back == /\ pc = "back" /\ pc' = "done" /\ UNCHANGED g
        /\ IF C1 > 0 /\ RLe(Zero, u) /\ RLe(u, One) THEN UNCHANGED <<t, u>>
           ELSE /\ u' = Clamp(u)
                /\ t' = IF A1 > 0 THEN Clamp(RDiv(RSub(RMul(R(B1), Clamp(u)), R(D1)), R(A1))) ELSE Zero
Next == First \/ Second \/ Back
Diff3 == [k \in 1..3 |-> RSub(RMul(t, R(d1[k])), RAdd(R(g[2][k]), RMul(u, R(d2[k]))))]
Dist2 == RAdd(RAdd(RMul(Diff3[1], Diff3[1]), RMul(Diff3[2], Diff3[2])), RMul(Diff3[3], Diff3[3]))
PairOK == pc = "done" => \E M \in {ClosestPairs(O3, g[1], g[2], g[3])} : Dist2 = (CHOOSE k \in M : TRUE)[1]
Stays == /\ RLe(Zero, t) /\ RLe(t, One) /\ (pc = "done" => RLe(Zero, u) /\ RLe(u, One))
=============================================================================
