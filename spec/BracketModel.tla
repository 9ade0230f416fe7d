----------------------------- MODULE BracketModel -----------------------------
(* Design model of bounded minimisation: any choice of trial points, the        *)
(* bracket kept as the implementation keeps it, on every strictly unimodal      *)
(* function of a small grid (integer points 0..N, trial points strictly inside).*)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS N, V
VARIABLES f, a, b, xf, seen
Unimodal(h) == \E m \in 0..N : \A k \in 0..(N - 1) : IF k < m THEN h[k] > h[k + 1] ELSE h[k] < h[k + 1]
Min(h) == CHOOSE m \in 0..N : \A k \in 0..N : h[m] <= h[k]
Init == /\ f \in {h \in [0..N -> 0..V] : Unimodal(h)} /\ a = 0 /\ b = N
        /\ xf \in 1..(N - 1) /\ seen = {xf}
Step(x) == IF f[x] <= f[xf]
           THEN /\ (IF x >= xf THEN a' = xf /\ b' = b ELSE b' = xf /\ a' = a) /\ xf' = x
           ELSE /\ (IF x < xf THEN a' = x /\ b' = b ELSE b' = x /\ a' = a) /\ xf' = xf
Next == \E x \in (a + 1)..(b - 1) : x # xf /\ Step(x) /\ seen' = seen \cup {x} /\ f' = f
Inside == a <= xf /\ xf <= b /\ seen \subseteq 0..N /\ a >= 0 /\ b <= N
Holds == a <= Min(f) /\ Min(f) <= b
Best == \A x \in seen : f[xf] <= f[x]
\* when nothing is left to try, the best point is next to the minimiser (or is it)
Done == (\A x \in (a + 1)..(b - 1) : x = xf) => xf - Min(f) \in -1..1
=============================================================================
