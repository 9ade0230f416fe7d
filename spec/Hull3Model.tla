------------------------------ MODULE Hull3Model ------------------------------
(* The two definitions of an extreme point used for validation (by supporting  *)
(* facets, by supporting lines of planar sets) against the defining one: a     *)
(* point that is not in the hull of the others.                                *)
EXTENDS Geom, TLC
CONSTANTS Ext, Max
VARIABLE P
Pt == (0..2) \X (0..2) \X (0..Ext)
RECURSIVE Subsets(_)
Subsets(n) == IF n = 0 THEN {{}} ELSE LET S == Subsets(n - 1) IN S \cup {s \cup {p} : s \in S, p \in Pt}
Init == P \in Subsets(Max) \ {{}}
Next == UNCHANGED P
Seqs(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o F(T \ {x}) IN F(S)
Spans == \E p, q, r, s \in P : Det(p, q, r, s) # 0
ExtremeOK ==
  LET E == {p \in P : ~InConv(p, P \ {p})}
  IN /\ Coplanar(Seqs(P)) = ~Spans
     /\ IF Spans THEN Extreme(P) = E /\ E \subseteq OnBoundary(P) ELSE ExtremeFlat(P) = E
=============================================================================
