------------------------------- MODULE VecModel -------------------------------
(* The exact vector operations the observations are compared with satisfy the   *)
(* laws users rely on, on every pair of small integer vectors.                  *)
EXTENDS Algebra, TLC
CONSTANTS E
VARIABLES a, b
Init == a \in [1..3 -> -E..E] /\ b \in [1..3 -> -E..E]
Next == UNCHANGED <<a, b>>
Sca(k, v) == [j \in 1..3 |-> k * v[j]]
c == VCross(a, b)
Laws == /\ VDot(a, c) = 0 /\ VDot(b, c) = 0 /\ c = VNeg(VCross(b, a))
        /\ VDot(c, c) + VDot(a, b) * VDot(a, b) = VDot(a, a) * VDot(b, b)
        /\ VAdd(VSub(a, b), b) = a /\ VDot(a, b) = VDot(b, a)
        /\ VDot(VSub(a, b), VSub(a, b)) = VDot(a, a) + VDot(b, b) - 2 * VDot(a, b)
        /\ VDot(VSub(Sca(VDot(b, b), a), Sca(VDot(a, b), b)), b) = 0      \* what is left of a after projecting on b
        /\ VCross(a, c) = VSub(Sca(VDot(a, b), a), Sca(VDot(a, a), b))
        /\ Det(<<a, b, c>>) = VDot(c, c)
=============================================================================
