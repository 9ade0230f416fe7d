------------------------------- MODULE BSpline -------------------------------
(* B-spline curves by their polar form (blossom), in exact arithmetic.        *)
(* A curve is [deg, kn, cp]: kn a sequence of rationals, cp a sequence of     *)
(* homogeneous points.  A homogeneous point is <<x, y, z, w, d>> (integers,   *)
(* d > 0) and stands for (x/d, y/d, z/d, w/d).                                *)
EXTENDS Rat, FiniteSets

HNorm(p) == LET g == GcdPos(GcdPos(GcdPos(GcdPos(p[5], Abs(p[1])), Abs(p[2])), Abs(p[3])), Abs(p[4]))
            IN IF g = 1 THEN p ELSE [k \in 1..5 |-> p[k] \div g]
\* (1 - a) p + a q for a rational a (any a: blossoms extrapolate)
HLerp(p, q, a) ==
  LET an == a[1]   ad == a[2]
      l  == Lcm(p[5], q[5])
      fp == (ad - an) * (l \div p[5])
      fq == an * (l \div q[5])
  IN HNorm(<<fp * p[1] + fq * q[1], fp * p[2] + fq * q[2], fp * p[3] + fq * q[3], fp * p[4] + fq * q[4], ad * l>>)
HEq(p, q) == p = q                 \* both normalised
HScaleSub(q, p, s) ==              \* s * (q - p), s rational
  LET l == Lcm(p[5], q[5])  fp == l \div p[5]  fq == l \div q[5]
  IN IF s[1] = 0 THEN <<0, 0, 0, 0, 1>>
     ELSE HNorm(<<s[1] * (fq * q[1] - fp * p[1]), s[1] * (fq * q[2] - fp * p[2]),
                  s[1] * (fq * q[3] - fp * p[3]), s[1] * (fq * q[4] - fp * p[4]), s[2] * l>>)

NCp(c) == Len(c.cp)
DomLo(c) == c.kn[c.deg + 1]
DomHi(c) == c.kn[Len(c.kn) - c.deg]
WellFormed(c) == /\ c.deg >= 1 /\ Len(c.kn) = Len(c.cp) + c.deg + 1 /\ Len(c.cp) > c.deg
                 /\ \A i \in 1..(Len(c.kn) - 1) : RLe(c.kn[i], c.kn[i + 1])

\* indices are 1-based: span k means kn[k] <= t < kn[k+1], deg+1 <= k <= NCp
Span(c, t) ==
  LET S == {k \in (c.deg + 1)..NCp(c) : RLt(c.kn[k], c.kn[k + 1])}
      H == {k \in S : RLe(c.kn[k], t)}
  IN IF H = {} THEN CHOOSE k \in S : \A j \in S : k <= j
     ELSE CHOOSE k \in H : \A j \in H : j <= k

Alpha(c, i, r, a) ==               \* (a - u_i) / (u_{i+deg+1-r} - u_i)
  LET u == c.kn[i]  v == c.kn[i + c.deg + 1 - r] IN RDiv(RSub(a, u), RSub(v, u))

RECURSIVE BlossomRow(_, _, _, _, _)
\* row: the deg+2-r points d_{k-deg+r-1} .. d_k of level r-1; args[r] is consumed at level r
BlossomRow(c, k, args, r, row) ==
  IF r > c.deg THEN row[1]
  ELSE BlossomRow(c, k, args, r + 1,
         [j \in 1..(c.deg + 1 - r) |-> HLerp(row[j], row[j + 1], Alpha(c, k - c.deg + r + j - 1, r, args[r]))])
Blossom(c, k, args) == BlossomRow(c, k, args, 1, [j \in 1..(c.deg + 1) |-> c.cp[k - c.deg + j - 1]])

HPoint(c, t) == Blossom(c, Span(c, t), [r \in 1..c.deg |-> t])

\* the control points that describe curve c over a finer (or cut) knot vector kn
CpOver(c, kn) ==
  LET n == Len(kn) - c.deg - 1
      Seg(i) == CHOOSE j \in i..(i + c.deg) : RLt(kn[j], kn[j + 1])
  IN [i \in 1..n |-> Blossom(c, Span(c, kn[Seg(i)]), [r \in 1..c.deg |-> kn[i + r]])]
Over(c, kn) == [c EXCEPT !.kn = kn, !.cp = CpOver(c, kn)]

Mult(kn, t) == Cardinality({i \in 1..Len(kn) : kn[i] = t})
RECURSIVE InsertKnots(_, _, _)
InsertKnots(kn, t, k) ==
  IF k = 0 THEN kn
  ELSE LET pos == Cardinality({i \in 1..Len(kn) : RLe(kn[i], t)})
       IN InsertKnots(SubSeq(kn, 1, pos) \o <<t>> \o SubSeq(kn, pos + 1, Len(kn)), t, k - 1)
Insert(c, t, k) == Over(c, InsertKnots(c.kn, t, k))

Repeat(t, k) == [i \in 1..k |-> t]
LeftKnots(c, t)  == SelectSeq(c.kn, LAMBDA u : RLt(u, t)) \o Repeat(t, c.deg + 1)
RightKnots(c, t) == Repeat(t, c.deg + 1) \o SelectSeq(c.kn, LAMBDA u : RLt(t, u))
SplitLeft(c, t)  == Over(c, LeftKnots(c, t))
SplitRight(c, t) == Over(c, RightKnots(c, t))
Affine01(kn) == LET a == kn[1]  b == kn[Len(kn)] IN [i \in 1..Len(kn) |-> RDiv(RSub(kn[i], a), RSub(b, a))]
Normalised(c) == [c EXCEPT !.kn = Affine01(c.kn)]

RECURSIVE DistinctKnots(_)
DistinctKnots(kn) == IF Len(kn) <= 1 THEN kn
                     ELSE LET t == DistinctKnots(Tail(kn)) IN IF kn[1] = t[1] THEN t ELSE <<kn[1]>> \o t
BezierPieces(c) == LET u == DistinctKnots(c.kn)
                   IN [i \in 1..(Len(u) - 1) |-> Over(c, Repeat(u[i], c.deg + 1) \o Repeat(u[i + 1], c.deg + 1))]

\* hodograph of the homogeneous curve
Hodograph(c) ==
  [deg |-> c.deg - 1, kn |-> SubSeq(c.kn, 2, Len(c.kn) - 1),
   cp |-> [i \in 1..(NCp(c) - 1) |->
            LET h == RSub(c.kn[i + c.deg + 1], c.kn[i + 1])
            IN IF h[1] = 0 THEN <<0, 0, 0, 0, 1>> ELSE HScaleSub(c.cp[i + 1], c.cp[i], RDiv(R(c.deg), h))]]
\* the derivatives of orders 0..d of the homogeneous curve at t
RECURSIVE HDerivs(_, _, _)
HDerivs(c, t, d) ==
  <<IF c.deg = 0 THEN c.cp[Span(c, t)] ELSE HPoint(c, t)>>
  \o (IF d = 0 THEN <<>>
      ELSE IF c.deg = 0 THEN [k \in 1..d |-> <<0, 0, 0, 0, 1>>]
      ELSE HDerivs(Hodograph(c), t, d - 1))
HDeriv(c, t, k) == HDerivs(c, t, k)[k + 1]

DefaultKnots(n, p) == [i \in 1..(n + p + 1) |-> R(IF i <= p + 1 THEN 0 ELSE IF i > n THEN n - p ELSE i - p - 1)]
\* periodic curves: the first p control points repeated at the end, uniform knots
Wrap(cp, p) == cp \o SubSeq(cp, 1, p)
WrapsAlready(cp, p) == \A j \in 1..p : cp[j] = cp[Len(cp) - p + j]
UniformKnots(n, p) == [i \in 1..(n + p + 1) |-> R(i - 1 - p)]

\* the observed double o is coordinate j (1..3) of the Euclidean point of the homogeneous point h
\* (weights are positive, so h[4] > 0)
NearCoord(o, h, j, tol) == NearND(o, h[j], h[4], tol)
NearPoint(o, h, tol) == Len(o) = 3 /\ \A j \in 1..3 : NearCoord(o[j], h, j, tol)
NearHom(o, h, tol) == Len(o) = 4 /\ \A j \in 1..4 : NearND(o[j], h[j], h[5], tol)
=============================================================================
