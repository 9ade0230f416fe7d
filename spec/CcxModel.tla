------------------------------ MODULE CcxModel ------------------------------
(* Intersection of two curves by bisection with bounding boxes: a stack of      *)
(* pairs of parameter intervals, midpoints reported when both boxes are small,  *)
(* suppressed next to the last report.  Curves are lattice paths 0..N -> Z x Z, *)
(* doubled so that midpoints of unit intervals are integers.                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, W, H, Small, Gap, ParTol
VARIABLES f, g, todo, res
vars == <<f, g, todo, res>>
Cell == (0..W) \X (0..H)
Nodes(I) == I[1]..I[2]
Lo(p, I, j) == CHOOSE x \in {p[k][j] : k \in Nodes(I)} : \A k \in Nodes(I) : x <= p[k][j]
Hi(p, I, j) == CHOOSE x \in {p[k][j] : k \in Nodes(I)} : \A k \in Nodes(I) : p[k][j] <= x
Meet(I, J) == \A j \in 1..2 : Lo(f, I, j) - Gap <= Hi(g, J, j) /\ Lo(g, J, j) <= Hi(f, I, j) + Gap
Tiny(p, I) == I[2] - I[1] = 1 \/ \A j \in 1..2 : Hi(p, I, j) - Lo(p, I, j) < Small
Mid(I) == (I[1] + I[2]) \div 2
LeftOf(I) == <<I[1], Mid(I)>>      RightOf(I) == <<Mid(I), I[2]>>
Near(r, s, t) == LET d(a, b) == IF a < b THEN b - a ELSE a - b IN d(r[1], s) <= ParTol /\ d(r[2], t) <= ParTol
Init == /\ f \in [0..N -> Cell] /\ g \in [0..N -> Cell]
        /\ todo = <<<<<<0, N>>, <<0, N>>>>>> /\ res = <<>>
Step == /\ todo # <<>>
        /\ LET I == todo[1][1]  J == todo[1][2]  rest == Tail(todo)
               s == I[1] + I[2]  t == J[1] + J[2] IN       \* twice the midpoints
           IF ~Meet(I, J) THEN todo' = rest /\ UNCHANGED res
           ELSE IF Tiny(f, I) /\ Tiny(g, J)
                THEN /\ todo' = rest
                     /\ res' = IF res # <<>> /\ Near(res[Len(res)], s, t) THEN res ELSE Append(res, <<s, t>>)
           ELSE LET A == IF I[2] - I[1] = 1 THEN <<I, I>> ELSE <<LeftOf(I), RightOf(I)>>
                    B == IF J[2] - J[1] = 1 THEN <<J, J>> ELSE <<LeftOf(J), RightOf(J)>>
                IN todo' = <<<<A[1], B[1]>>, <<A[2], B[2]>>, <<A[1], B[2]>>, <<A[2], B[1]>>>> \o rest /\ UNCHANGED res
        /\ UNCHANGED <<f, g>>
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
In(k, I) == I[1] <= k /\ k <= I[2]
\* twice the width of the largest piece that is small enough and contains the node
Wide(p, k) == LET S == {I \in (0..N) \X (0..N) : I[1] < I[2] /\ In(k, I) /\ Tiny(p, I)} IN
              IF S = {} THEN 0 ELSE CHOOSE w \in {I[2] - I[1] : I \in S} : \A I \in S : I[2] - I[1] <= w
Common == {c \in (0..N) \X (0..N) : f[c[1]] = g[c[2]]}
D(a, b) == IF a < b THEN b - a ELSE a - b
\* every common node is still to be examined or was reported
Kept == \A c \in Common :
  \/ \E k \in 1..Len(todo) : In(c[1], todo[k][1]) /\ In(c[2], todo[k][2])
  \/ \E r \in 1..Len(res) : D(res[r][1], 2 * c[1]) <= Wide(f, c[1]) + ParTol /\ D(res[r][2], 2 * c[2]) <= Wide(g, c[2]) + ParTol
\* every report lies between small pieces whose boxes meet
Sound == \A r \in 1..Len(res) : \E I, J \in (0..N) \X (0..N) :
           I[1] < I[2] /\ J[1] < J[2] /\ I[1] + I[2] = res[r][1] /\ J[1] + J[2] = res[r][2] /\ Tiny(f, I) /\ Tiny(g, J) /\ Meet(I, J)
Ends == <>(todo = <<>>)
=============================================================================
