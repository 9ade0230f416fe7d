-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic on pairs <<n, d>> (d > 0, gcd(n, d) = 1), and   *)
(* the comparison of an exact value with an observed floating-point number.  *)
EXTENDS Integers, Sequences

Abs(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Sgn(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0

RECURSIVE GcdPos(_, _)
GcdPos(a, b) == IF b = 0 THEN a ELSE GcdPos(b, a % b)
Gcd(a, b) == GcdPos(Abs(a), Abs(b))
Lcm(a, b) == (a \div Gcd(a, b)) * b

R(n) == <<n, 1>>
Zero == <<0, 1>>
One  == <<1, 1>>
Norm(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
                  g == Gcd(n, d)
              IN IF n = 0 THEN Zero ELSE <<s * (n \div g), s * (d \div g)>>
\* operands over the least common denominator keep intermediate values small
RAdd(a, b) == LET g == Gcd(a[2], b[2]) IN Norm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET g1 == Gcd(a[1], b[2])
                  g2 == Gcd(b[1], a[2])
              IN IF a[1] = 0 \/ b[1] = 0 THEN Zero
                 ELSE <<(a[1] \div g1) * (b[1] \div g2), (a[2] \div g2) * (b[2] \div g1)>>
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RSgn(a) == Sgn(a[1])
RLt(a, b) == RSgn(RSub(a, b)) < 0
RLe(a, b) == RSgn(RSub(a, b)) <= 0
REq(a, b) == a = b
RAbs(a) == <<Abs(a[1]), a[2]>>
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a

(* An observed double is <<flag, i, f>>: flag = 0 and value = i + f / 10^9   *)
(* with 0 <= f < 10^9 (rounded to the nearest 10^-9), or flag = 1 when it is *)
(* not finite (or absurdly large).                                          *)
Finite(o) == o[1] = 0
RECURSIVE Digits10(_, _, _)
Digits10(r, d, k) == IF k = 0 THEN 0     \* the next k decimal digits of r/d (0 <= r < d), without overflow
                     ELSE LET q == (10 * r) \div d
                              rest == (10 * r) % d
                          IN q * (10 ^ (k - 1)) + Digits10(rest, d, k - 1)
Frac9(r, d) == IF d < 2000000
               THEN LET a == 1000 * r
                        b == 1000 * (a % d)
                        c == 1000 * (b % d)
                    IN (a \div d) * 1000000 + (b \div d) * 1000 + (c \div d)
               ELSE Digits10(r, d, 9)
Fix(n, d) == <<n \div d, Frac9(n % d, d)>>        \* d > 0

\* |observed - n/d| <= tol * 10^-9
NearND(o, n, d, tol) ==
  /\ o[1] = 0
  /\ LET e == Fix(n, d)
         di == o[2] - e[1]
     IN Abs(di) <= 1 /\ Abs(di * 1000000000 + (o[3] - e[2])) <= tol
NearR(o, r, tol) == NearND(o, r[1], r[2], tol)
\* two observed doubles agree within tol * 10^-9
NearObs(a, b, tol) ==
  /\ a[1] = 0 /\ b[1] = 0
  /\ LET di == a[2] - b[2]
     IN Abs(di) <= 1 /\ Abs(di * 1000000000 + (a[3] - b[3])) <= tol
\* observed <= n/d + tol, observed >= n/d - tol  (tol in 10^-9)
LeqR(o, r, tol) ==
  /\ o[1] = 0
  /\ LET e == Fix(r[1], r[2])
         di == o[2] - e[1]
     IN di < -1 \/ (di <= 1 /\ di * 1000000000 + (o[3] - e[2]) <= tol)
GeqR(o, r, tol) ==
  /\ o[1] = 0
  /\ LET e == Fix(r[1], r[2])
         di == o[2] - e[1]
     IN di > 1 \/ (di >= -1 /\ di * 1000000000 + (o[3] - e[2]) >= -tol)
LeqObs(a, b, tol) ==
  /\ a[1] = 0 /\ b[1] = 0
  /\ LET di == a[2] - b[2]
     IN di < -1 \/ (di <= 1 /\ di * 1000000000 + (a[3] - b[3]) <= tol)
SeqNearR(os, rs, tol) == Len(os) = Len(rs) /\ \A i \in 1..Len(rs) : NearR(os[i], rs[i], tol)
=============================================================================
