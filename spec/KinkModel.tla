------------------------------ MODULE KinkModel ------------------------------
(* Adaptive Simpson quadrature of |x - m| on [0,1], m dyadic: the interval with *)
(* the kink is halved until the kink is one of its ends. Each level compares    *)
(* Simpson's rule on the interval with that on its halves.                      *)
EXTENDS Integers
CONSTANTS K
VARIABLES k, n                 \* the kink is at n / 2^k of the current interval
vars == <<k, n>>
W == 2 ^ k
Init == /\ k \in 1..K /\ n \in 1..(2 ^ k - 1) /\ n % 2 = 1
\* 4 * 2^k times the value at j quarters of the interval, its length being one
V(j) == LET d == j * W - 4 * n IN IF d < 0 THEN -d ELSE d
\* 48 * 2^k times the two rules
Whole == 2 * (V(0) + 4 * V(2) + V(4))
Halves == V(0) + 4 * V(1) + 2 * V(2) + 4 * V(3) + V(4)
Diff == IF Halves > Whole THEN Halves - Whole ELSE Whole - Halves
Next == /\ k > 0 /\ k' = k - 1
        /\ n' \in (IF 2 * n <= W THEN {n} ELSE {}) \cup (IF 2 * n >= W THEN {n - W \div 2} ELSE {})
\* while the kink is inside, the rules differ by at least 8 in these units: an estimate of length^2 / (90 * 2^k)
Seen == k > 0 => n > 0 /\ n < W /\ Diff >= 8
\* with the kink at an end the rules agree and give the integral
Exact == k = 0 => Diff = 0 /\ Halves * 2 * W = 48 * (n * n + (W - n) * (W - n))
=============================================================================
