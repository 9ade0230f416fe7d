-------------------------------- MODULE Boxes --------------------------------
(* Points and axis-parallel boxes on an integer lattice (the inputs are scaled *)
(* so that every coordinate is an integer).  A box is [lo, hi]; the empty box  *)
(* is the neutral element of Join.                                             *)
EXTENDS Integers, Sequences, FiniteSets
Mx(a, b) == IF a < b THEN b ELSE a
Mn(a, b) == IF a < b THEN a ELSE b
IsEmpty(b) == b.lo = <<>>
Empty == [lo |-> <<>>, hi |-> <<>>]
Has(b, p) == ~IsEmpty(b) /\ \A j \in 1..3 : b.lo[j] <= p[j] /\ p[j] <= b.hi[j]
Meet(a, b) == ~IsEmpty(a) /\ ~IsEmpty(b) /\ \A j \in 1..3 : a.lo[j] <= b.hi[j] /\ b.lo[j] <= a.hi[j]
Join(a, b) == IF IsEmpty(a) THEN b ELSE IF IsEmpty(b) THEN a
              ELSE [lo |-> [j \in 1..3 |-> Mn(a.lo[j], b.lo[j])], hi |-> [j \in 1..3 |-> Mx(a.hi[j], b.hi[j])]]
Common(a, b) == [lo |-> [j \in 1..3 |-> Mx(a.lo[j], b.lo[j])], hi |-> [j \in 1..3 |-> Mn(a.hi[j], b.hi[j])]]
Volume(b) == (b.hi[1] - b.lo[1]) * (b.hi[2] - b.lo[2]) * (b.hi[3] - b.lo[3])
Within(a, b) == IsEmpty(a) \/ (~IsEmpty(b) /\ \A j \in 1..3 : b.lo[j] <= a.lo[j] /\ a.hi[j] <= b.hi[j])
PointBox(p) == [lo |-> p, hi |-> p]
D2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2]) + (p[3] - q[3]) * (p[3] - q[3])
\* multisets as functions from elements to counts
BagOf(s) == [x \in {s[k] : k \in 1..Len(s)} |-> Cardinality({k \in 1..Len(s) : s[k] = x})]
BagAdd(b, x) == IF x \in DOMAIN b THEN [b EXCEPT ![x] = @ + 1] ELSE [y \in DOMAIN b \cup {x} |-> IF y = x THEN 1 ELSE b[y]]
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumF(f, S \ {x})
BagSize(b) == SumF(b, DOMAIN b)
=============================================================================
