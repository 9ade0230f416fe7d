------------------------------ MODULE PlaneModel ------------------------------
(* Design model of the plane routines: all planes with small coefficients and   *)
(* all point lists of a grid.  The routines of the library over exact numbers:  *)
(* intersection with a ray, of two planes (a point with one coordinate zero,    *)
(* chosen by the largest component of the direction), of three planes (Cramer), *)
(* the plane of three points, and the coplanarity test that looks for the first *)
(* three points spanning a plane.                                               *)
EXTENDS Geom, TLC
CONSTANTS E, Ext, MaxPts, MaxPl
VARIABLES pl, pts
Coef == {<<a, b, c, d>> \in (-E..E) \X (-E..E) \X (-E..E) \X (-1..1) : <<a, b, c>> # O3}
Grid == (0..Ext) \X (0..Ext) \X (0..Ext)
Init == pl = <<>> /\ pts = <<>>
AddPlane == Len(pts) = 0 /\ Len(pl) < MaxPl /\ \E p \in Coef : pl' = Append(pl, p) /\ UNCHANGED pts
AddPoint == Len(pl) = 0 /\ Len(pts) < MaxPts /\ \E p \in Grid : pts' = Append(pts, p) /\ UNCHANGED pl
Next == AddPlane \/ AddPoint

N3(p) == <<p[1], p[2], p[3]>>
\* x: rational point (numerators over one denominator)
On3(p, x, d) == Dot(N3(p), x) + p[4] * d = 0
D2(a, b, c, d) == a * d - b * c
D3(a, b, c) == Dot(a, Cross(b, c))
MaxAt(v) == LET m(k) == IF v[k] < 0 THEN -v[k] ELSE v[k] IN IF m(2) > m(1) THEN (IF m(3) > m(2) THEN 3 ELSE 2) ELSE IF m(3) > m(1) THEN 3 ELSE 1
\* the point of two planes: <<numerators, denominator>>
Two(p, q) ==
  LET k == MaxAt(Cross(N3(p), N3(q)))
  IN CASE k = 1 -> LET det == D2(p[2], p[3], q[2], q[3]) IN <<<<0, p[3] * q[4] - q[3] * p[4], q[2] * p[4] - p[2] * q[4]>>, det>>
       [] k = 2 -> LET det == D2(p[1], p[3], q[1], q[3]) IN <<<<p[3] * q[4] - q[3] * p[4], 0, q[1] * p[4] - p[1] * q[4]>>, det>>
       [] k = 3 -> LET det == D2(p[1], p[2], q[1], q[2]) IN <<<<p[2] * q[4] - q[2] * p[4], q[1] * p[4] - p[1] * q[4], 0>>, det>>
TwoOK == Len(pl) >= 2 =>
  LET p == pl[1]  q == pl[2]  d == Cross(N3(p), N3(q))
  IN d # O3 => \E x \in {Two(p, q)} : x[2] # 0 /\ \A w \in {p, q} : On3(w, x[1], x[2]) /\ On3(w, Add3(x[1], Scale3(x[2], d)), x[2])
\* parallel planes have a common point only if they are equal: reporting none is right, up to that
ParallelOK == Len(pl) >= 2 =>
  LET p == pl[1]  q == pl[2] IN Cross(N3(p), N3(q)) = O3 => \A g \in Grid : (On3(p, g, 1) /\ On3(q, g, 1)) => \A h \in Grid : On3(p, h, 1) = On3(q, h, 1)
ThreeOK == Len(pl) >= 3 =>
  LET p == pl[1]  q == pl[2]  r == pl[3]
      det == D3(N3(p), N3(q), N3(r))
      c1 == <<p[1], q[1], r[1]>> c2 == <<p[2], q[2], r[2]>> c3 == <<p[3], q[3], r[3]>> e == <<-p[4], -q[4], -r[4]>>
      x == <<D3(e, c2, c3), D3(c1, e, c3), D3(c1, c2, e)>>
  IN /\ det # 0 => \A w \in {p, q, r} : On3(w, x, det)
\* a ray from each grid point in each direction: t = N / D
RayOK == Len(pl) = 1 =>
  \A a, b \in Grid : LET p == pl[1]  v == Sub3(b, a)  dd == Dot(N3(p), v)  nn == -(Dot(N3(p), a) + p[4])
                     IN IF dd # 0 THEN On3(p, Add3(Scale3(dd, a), Scale3(nn, v)), dd)
                        ELSE (nn = 0) = On3(p, b, 1)
\* the library's coplanarity test
FirstOf(S) == CHOOSE k \in S : \A l \in S : k <= l
Js == {k \in 2..Len(pts) : pts[k] # pts[1]}
Ks(j) == {k \in (j + 1)..Len(pts) : Nrm(pts[1], pts[j], pts[k]) # O3}
LibCoplanar == IF Len(pts) <= 3 \/ Js = {} THEN TRUE
               ELSE LET j == FirstOf(Js) IN Ks(j) = {} \/ \E k \in {FirstOf(Ks(j))} : \A l \in 1..Len(pts) : Det(pts[1], pts[j], pts[k], pts[l]) = 0
CoplanarOK == LibCoplanar = ~Span3({Sub3(pts[k], pts[1]) : k \in 1..Len(pts)})
SpecOK == Coplanar(pts) = LibCoplanar
=============================================================================
