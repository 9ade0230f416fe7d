------------------------------ MODULE CsxModel ------------------------------
(* Intersection of a curve and a surface (csx): boxes of parameter intervals    *)
(* (one parameter of the surface) on a stack.  Newton's method may miss a       *)
(* crossing while the box is large, and finds any crossing of the box; a box is *)
(* split at the crossing found, or in the middle (a box with a short side shows *)
(* a new crossing before a known one), and a piece is dropped if its            *)
(* projection from the crossing separates curve and surface.  Cross is the set  *)
(* of true crossings; they are at least Sep apart.                              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, M, Most, Sep, Large
VARIABLES Cross, todo, found
vars == <<Cross, todo, found>>
D(a, b) == IF a < b THEN b - a ELSE a - b
Apart(a, b) == a = b \/ (D(a[1], b[1]) >= Sep /\ (a[2] = b[2] \/ D(a[2], b[2]) >= Sep))
In(c, B) == B[1][1] <= c[1] /\ c[1] <= B[1][2] /\ B[2][1] <= c[2] /\ c[2] <= B[2][2]
Len1(I) == I[2] - I[1]
Inner(x, I) == IF I[1] < x /\ x < I[2] THEN x ELSE (I[1] + I[2]) \div 2      \* a piece cannot be split on its edge
Quarters(B, t, u) == <<<<<<B[1][1], t>>, <<B[2][1], u>>>>, <<<<t, B[1][2]>>, <<B[2][1], u>>>>, <<<<B[1][1], t>>, <<u, B[2][2]>>>>, <<<<t, B[1][2]>>, <<u, B[2][2]>>>>>>
Init == /\ Cross \in {{}} /\ todo = <<>> /\ found = {<<-1, -1>>}
\* choose the crossings one by one
Choose == /\ found = {<<-1, -1>>} /\ UNCHANGED <<todo, found>> /\ Cardinality(Cross) < Most
          /\ \E t \in 0..N, u \in 0..M : /\ \A c \in Cross : c[1] < t /\ Apart(c, <<t, u>>)
                                         /\ Cross' = Cross \cup {<<t, u>>}
Begin == /\ found = {<<-1, -1>>} /\ found' = {} /\ todo' = <<<<<<0, N>>, <<0, M>>>>>> /\ UNCHANGED Cross
Here == {c \in Cross : In(c, todo[1])}
Short(B) == Len1(B[1]) < Large \/ Len1(B[2]) < Large
Small(B) == Len1(B[1]) < 2 \/ Len1(B[2]) < 2
Working == found # {<<-1, -1>>} /\ todo # <<>> /\ UNCHANGED Cross
Drop == Working /\ (Small(todo[1]) \/ Here = {}) /\ todo' = Tail(todo) /\ UNCHANGED found
Bisect == /\ Working /\ ~Small(todo[1])
          /\ (Here = {} \/ (Len1(todo[1][1]) >= Large /\ Len1(todo[1][2]) >= Large))
          /\ LET B == todo[1] IN todo' = Quarters(B, Inner(B[1][1], B[1]), Inner(B[2][1], B[2])) \o Tail(todo)
          /\ UNCHANGED found
Found == /\ Working /\ ~Small(todo[1])
         /\ \E c \in Here :
              /\ Here \subseteq found \/ c \notin found \/ ~Short(todo[1])
              /\ LET B == todo[1]  q == Quarters(B, Inner(c[1], B[1]), Inner(c[2], B[2]))
                     free == {k \in 1..4 : \A x \in Cross \ {c} : ~In(x, q[k])}     \* no other crossing: the projections may be separated
                 IN \E drop \in SUBSET free :
                      LET Piece(k) == IF k \in drop THEN <<>> ELSE <<q[k]>>
                      IN /\ found' = found \cup {c}
                         /\ todo' = Piece(1) \o Piece(2) \o Piece(3) \o Piece(4) \o Tail(todo)
Next == Choose \/ Begin \/ Drop \/ Bisect \/ Found
Spec == Init /\ [][Next]_vars /\ WF_vars(Drop \/ Bisect \/ Found)
Sound == found \subseteq Cross \cup {<<-1, -1>>}
\* every crossing was found or lies in a box that is still to be examined and not too small
Kept == found = {<<-1, -1>>} \/ \A c \in Cross : c \in found \/ \E k \in 1..Len(todo) : In(c, todo[k]) /\ ~Small(todo[k])
Ends == [](found # {<<-1, -1>>} => <>(todo = <<>>))
=============================================================================
