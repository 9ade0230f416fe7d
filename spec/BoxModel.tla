------------------------------- MODULE BoxModel -------------------------------
(* The box operations of the library (componentwise min/max and comparisons)   *)
(* against boxes as sets of lattice points, for every triple of small boxes.   *)
EXTENDS Boxes, TLC
CONSTANT Ext
VARIABLES a, b, p
R1 == 0..Ext
Iv == {<<x, y>> \in R1 \X R1 : x <= y}
Bx == {[lo |-> <<x[1], y[1], z[1]>>, hi |-> <<x[2], y[2], z[2]>>] : x \in Iv, y \in Iv, z \in Iv}
Pt == R1 \X R1 \X R1
Init == a \in Bx /\ b \in Bx /\ p \in Pt
Next == UNCHANGED <<a, b, p>>
Set(x) == {q \in Pt : Has(x, q)}
MeetOK == Meet(a, b) <=> Set(a) \cap Set(b) # {}
CommonOK == Meet(a, b) => Set(Common(a, b)) = Set(a) \cap Set(b)
JoinOK == /\ Set(a) \cup Set(b) \subseteq Set(Join(a, b)) /\ Join(a, b) = Join(b, a) /\ Join(a, Empty) = a
          /\ \A x \in {a, b} : Within(x, Join(a, b))
SmallestOK == Has(a, p) => (Join(a, PointBox(p)) = a)
=============================================================================
