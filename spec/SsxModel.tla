------------------------------ MODULE SsxModel ------------------------------
(* Start points of the intersection of two surfaces (ssx): the intersection is  *)
(* the zero set of a function on the W x H cells of a grid, given by its signs  *)
(* on the vertices (sign[x, y], chosen row by row).  Pieces (rectangles of      *)
(* cells) are dropped if the function does not change sign on them, reported if *)
(* they are recognised as simple (which may be declined, but never claimed of a *)
(* piece with a closed branch inside), and split in four otherwise.  A report   *)
(* pairs the crossings of the piece's boundary, nearest first.                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W, H
VARIABLES sign, todo, patches
vars == <<sign, todo, patches>>
With(x, Op(_)) == Op(x)
\* an edge of the grid by the doubled coordinates of its middle
Edges == {<<x, y>> \in (0..2 * W) \X (0..2 * H) : (x + y) % 2 = 1}
Sign(x, y) == x \in sign[y + 1]
Crosses(e) == IF e[1] % 2 = 1 THEN Sign((e[1] - 1) \div 2, e[2] \div 2) # Sign((e[1] + 1) \div 2, e[2] \div 2)
                              ELSE Sign(e[1] \div 2, (e[2] - 1) \div 2) # Sign(e[1] \div 2, (e[2] + 1) \div 2)
\* the edges of a cell (x, y), in order: bottom, right, top, left
Around(x, y) == <<<<2 * x + 1, 2 * y>>, <<2 * x + 2, 2 * y + 1>>, <<2 * x + 1, 2 * y + 2>>, <<2 * x, 2 * y + 1>>>>
\* the pieces of the zero set inside a cell
Links(x, y) == LET a == Around(x, y)  C == {a[k] : k \in {j \in 1..4 : Crosses(a[j])}}
               IN IF Cardinality(C) = 4 THEN {{a[1], a[2]}, {a[3], a[4]}} ELSE IF C = {} THEN {} ELSE {C}
Cells(P) == (P[1]..P[2] - 1) \X (P[3]..P[4] - 1)
AllLinks(P) == UNION {Links(c[1], c[2]) : c \in Cells(P)}
RECURSIVE Grow(_, _)
Grow(S, L) == With(S \cup UNION {l \in L : l \cap S # {}}, LAMBDA T : IF T = S THEN S ELSE Grow(T, L))
Branches(P) == With(AllLinks(P), LAMBDA L : {Grow({e}, L) : e \in UNION L})
Rim(P) == {e \in Edges : /\ 2 * P[1] <= e[1] /\ e[1] <= 2 * P[2] /\ 2 * P[3] <= e[2] /\ e[2] <= 2 * P[4]
                         /\ (e[1] \in {2 * P[1], 2 * P[2]} \/ e[2] \in {2 * P[3], 2 * P[4]})}
Ixs(P) == {e \in Rim(P) : Crosses(e)}
Simple(P) == \A b \in Branches(P) : b \cap Rim(P) # {}
Dist(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
\* the pairs: a first point and the nearest one left
RECURSIVE Pairs(_)
Pairs(S) == IF S = {} THEN {} ELSE
            IF Cardinality(S) = 1 THEN {<<CHOOSE e \in S : TRUE, CHOOSE e \in S : TRUE>>} ELSE
            With(CHOOSE e \in S : \A f \in S : 100 * e[1] + e[2] <= 100 * f[1] + f[2], LAMBDA e :
            With(CHOOSE f \in S \ {e} : \A g \in S \ {e} : Dist(e, f) < Dist(e, g) \/ (Dist(e, f) = Dist(e, g) /\ 100 * f[1] + f[2] <= 100 * g[1] + g[2]),
                 LAMBDA f : {<<e, f>>} \cup Pairs(S \ {e, f})))
Ends(S) == {p[1] : p \in S} \cup {p[2] : p \in S}
Begun == Len(sign) = H + 1
Init == sign = <<>> /\ todo = <<>> /\ patches = {}
Row == ~Begun /\ \E s \in SUBSET (0..W) : sign' = Append(sign, s) /\ todo' = (IF Len(sign) = H THEN <<<<0, W, 0, H>>>> ELSE <<>>) /\ UNCHANGED patches
Working == Begun /\ todo # <<>> /\ UNCHANGED sign
Drop == Working /\ AllLinks(todo[1]) = {} /\ todo' = Tail(todo) /\ UNCHANGED patches
Report == Working /\ AllLinks(todo[1]) # {} /\ Simple(todo[1])
          /\ patches' = patches \cup Pairs(Ixs(todo[1])) /\ todo' = Tail(todo)
Split == /\ Working /\ AllLinks(todo[1]) # {} /\ Cardinality(Cells(todo[1])) > 1 /\ UNCHANGED patches
         /\ LET P == todo[1]  mx == (P[1] + P[2]) \div 2  my == (P[3] + P[4]) \div 2
                Piece(a, b, c, d) == IF a < b /\ c < d THEN <<<<a, b, c, d>>>> ELSE <<>>
            IN todo' = Piece(P[1], mx, P[3], my) \o Piece(mx, P[2], P[3], my) \o Piece(P[1], mx, my, P[4]) \o Piece(mx, P[2], my, P[4]) \o Tail(todo)
Next == Row \/ Drop \/ Report \/ Split
Spec == Init /\ [][Next]_vars /\ WF_vars(Drop \/ Report \/ Split)
\* reported points lie on the intersection
Sound == \A e \in Ends(patches) : Crosses(e)
\* a report uses every crossing of the piece's boundary, in pairs, each once
Paired == Begun /\ todo # <<>> => \E P \in {todo[1]} : Simple(P) => \E Q \in {Pairs(Ixs(P))} : Ends(Q) = Ixs(P) /\ 2 * Cardinality(Q) = Cardinality(Ixs(P))
\* every branch has a reported point or passes through a piece still to be examined
Kept == Begun => \A b \in Branches(<<0, W, 0, H>>) : b \cap Ends(patches) # {} \/ \E k \in 1..Len(todo) : \E l \in AllLinks(todo[k]) : l \subseteq b
Done == [](Begun => <>(todo = <<>>))
=============================================================================
