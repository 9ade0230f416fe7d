------------------------------- MODULE Cross -------------------------------
(* Certified intersections of curves and surfaces in exact arithmetic.  Values *)
(* along integer directions are rounded to multiples of 1/1024.                *)
EXTENDS BSurface, TLC
With(x, Op(_)) == CHOOSE r \in {Op(y) : y \in {x}} : TRUE
Unit == 1024
\* direction d applied to the Euclidean point of h, in units of 1/1024 rounded down or up
DnP(d, h) == LET a == d[1] * h[1] + d[2] * h[2] + d[3] * h[3] IN (a \div h[4]) * Unit + ((a % h[4]) * Unit) \div h[4]
UpP(d, h) == -DnP([j \in 1..3 |-> -d[j]], h)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Lowest(d, cp) == MinOf({DnP(d, cp[k]) : k \in 1..Len(cp)})
Highest(d, cp) == MaxOf({UpP(d, cp[k]) : k \in 1..Len(cp)})
N1(d) == Abs(d[1]) + Abs(d[2]) + Abs(d[3])
\* the piece of a clamped curve over [a, b]
SubC(c, a, b) == LET r == IF a = DomLo(c) THEN c ELSE SplitRight(c, a) IN IF b = DomHi(c) THEN r ELSE SplitLeft(r, b)
EndAt(c, t) == IF t = DomLo(c) THEN c.cp[1] ELSE IF t = DomHi(c) THEN c.cp[Len(c.cp)] ELSE CPoint(c, t)
ICross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
IDot(d, h) == d[1] * h[1] + d[2] * h[2] + d[3] * h[3]
\* all control points of both curves in one plane across d
Coplanar(d, P, Q) == /\ d # <<0, 0, 0>>
                     /\ LET k == IDot(d, P[1])  w == P[1][4] IN
                        /\ \A j \in 1..Len(P) : IDot(d, P[j]) * w = k * P[j][4]
                        /\ \A j \in 1..Len(Q) : IDot(d, Q[j]) * w = k * Q[j][4]
\* a piece of curve c that meets the part over [a, b] (control points S) and is no longer than tol (in 1/1024)
\* stays inside (a - E, b + E)
Within(c, S, a, b, E, d, tol) ==
  /\ RLe(DomLo(c), a) /\ RLe(b, DomHi(c)) /\ RLt(Zero, E)
  /\ LET lo == RSub(a, E)  hi == RAdd(b, E) IN
     /\ RLt(DomLo(c), lo) => UpP(d, EndAt(c, lo)) + N1(d) * tol < Lowest(d, S)
     /\ RLt(hi, DomHi(c)) => DnP(d, EndAt(c, hi)) - N1(d) * tol > Highest(d, S)
(* planar curves cross in the box e.s x e.t: n (m) grows along the first (second) curve, and  *)
(* the first (second) curve enters below and leaves above the other one along n (m)           *)
BoxCert(c1, c2, e, tol) ==
  /\ RLt(e.s[1], e.s[2]) /\ RLt(e.t[1], e.t[2]) /\ Coplanar(ICross(e.n, e.m), c1.cp, c2.cp)
  /\ With(<<SubC(c1, e.s[1], e.s[2]).cp, SubC(c2, e.t[1], e.t[2]).cp>>, LAMBDA D :
     LET A == D[1]  B == D[2] IN
     /\ UpP(e.n, A[1]) < Lowest(e.n, B) /\ Highest(e.n, B) < DnP(e.n, A[Len(A)])
     /\ UpP(e.m, B[1]) < Lowest(e.m, A) /\ Highest(e.m, A) < DnP(e.m, B[Len(B)])
     /\ Within(c1, A, e.s[1], e.s[2], e.E[1], e.n, tol) /\ Within(c2, B, e.t[1], e.t[2], e.E[2], e.m, tol))
SamePoint(g, h) == \A j \in 1..3 : g[j] * h[4] = h[j] * g[4]
Tangent(c, t) == With(HDerivs(c, t, 1), LAMBDA D : [j \in 1..3 |-> RatDerivs(D, j)[2]])
(* the curves share the point at parameters s and t and have different directions there       *)
PointCert(c1, c2, e, tol) ==
  /\ e.s[1] = e.s[2] /\ e.t[1] = e.t[2]
  /\ With(<<EndAt(c1, e.s[1]), EndAt(c2, e.t[1])>>, LAMBDA D :
     /\ SamePoint(D[1], D[2])
     /\ Within(c1, <<D[1]>>, e.s[1], e.s[1], e.E[1], e.n, tol) /\ Within(c2, <<D[2]>>, e.t[1], e.t[1], e.E[2], e.m, tol))
  /\ RCross(Tangent(c1, e.s[1]), Tangent(c2, e.t[1])) # <<Zero, Zero, Zero>>
\* the determinant of curve tangent and surface derivatives, and bounds for their product of lengths
RDot(a, b) == RAdd(RAdd(RMul(a[1], b[1]), RMul(a[2], b[2])), RMul(a[3], b[3]))
R1(a) == RAdd(RAdd(RAbs(a[1]), RAbs(a[2])), RAbs(a[3]))
(* curve c at t and surface x at (u, v) share a point, and the tangent is not in the tangent plane: *)
(* |T . (Su x Sv)| >= |T| |Su| |Sv| / 8 (sums of absolute values bound the lengths)               *)
MeetCert(c, x, e) ==
  /\ RLe(DomLo(c), e.t) /\ RLe(e.t, DomHi(c)) /\ RLe(ULo(x), e.u) /\ RLe(e.u, UHi(x)) /\ RLe(VLo(x), e.v) /\ RLe(e.v, VHi(x))
  /\ SamePoint(EndAt(c, e.t), HSurf(x, e.u, e.v))
  /\ With(<<Tangent(c, e.t), Partial(x, 0, e.u, e.v), Partial(x, 1, e.u, e.v)>>, LAMBDA D :
     LET d == RAbs(RDot(D[1], RCross(D[2], D[3]))) IN
     RLt(Zero, d) /\ RLe(RMul(RMul(R1(D[1]), R1(D[2])), R1(D[3])), RMul(R(8), d)))
=============================================================================
