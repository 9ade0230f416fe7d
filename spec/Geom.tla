-------------------------------- MODULE Geom --------------------------------
(* Exact planar and spatial geometry of integer points: orientation, hulls,    *)
(* polygons, planes and closest points, stated by definition, not by algorithm.*)
EXTENDS Rat, FiniteSets
Set(s) == {s[k] : k \in 1..Len(s)}
\* ---- plane geometry ----
Cr(p, q, r) == (q[1] - p[1]) * (r[2] - p[2]) - (q[2] - p[2]) * (r[1] - p[1])     \* > 0: r left of p -> q
Dt2(p, q) == p[1] * q[1] + p[2] * q[2]
Sub2(p, q) == <<p[1] - q[1], p[2] - q[2]>>
Collinear2(P) == \A p, q, r \in P : Cr(p, q, r) = 0
Between(p, q, r) == Cr(p, q, r) = 0 /\ Dt2(Sub2(p, r), Sub2(q, r)) <= 0            \* r on the closed segment pq
Nx(k, n) == (k % n) + 1
\* h is the strictly convex counter-clockwise boundary of the hull of P (two extremes for a segment, one point)
IsHull2(h, P) ==
  /\ Set(h) \subseteq P
  /\ IF Cardinality(P) = 1 THEN Len(h) = 1
     ELSE IF Collinear2(P) THEN Len(h) = 2 /\ h[1] # h[2] /\ \A p \in P : Between(h[1], h[2], p)
     ELSE /\ Len(h) >= 3
          /\ \A k \in 1..Len(h) : Cr(h[k], h[Nx(k, Len(h))], h[Nx(Nx(k, Len(h)), Len(h))]) > 0
          /\ \A k \in 1..Len(h) : \A p \in P : Cr(h[k], h[Nx(k, Len(h))], p) >= 0
          /\ Cardinality(Set(h)) = Len(h)
OnEdge(g, p) == \E k \in 1..Len(g) : Between(g[k], g[Nx(k, Len(g))], p)
\* inside a simple polygon: a ray in a direction that meets no vertex crosses the boundary an odd number of times
Crosses(a, b, p, d) ==         \* the ray p + t d, t > 0, properly crosses segment ab
  LET ca == d[1] * (a[2] - p[2]) - d[2] * (a[1] - p[1])
      cb == d[1] * (b[2] - p[2]) - d[2] * (b[1] - p[1])
      num == Cr(p, a, b)
  IN /\ Sgn(ca) * Sgn(cb) < 0
     /\ IF cb > ca THEN num > 0 ELSE num < 0
Generic(g, p, d) == \A k \in 1..Len(g) : d[1] * (g[k][2] - p[2]) - d[2] * (g[k][1] - p[1]) # 0
Odd(S) == (Cardinality(S) % 2) = 1
InsideBy(g, p, d) == Odd({k \in 1..Len(g) : Crosses(g[k], g[Nx(k, Len(g))], p, d)})
Inside2(g, p, K) == InsideBy(g, p, <<K, 1>>)          \* K larger than any extent: no vertex on the ray
\* two closed segments share a point
SegMeet(a, b, c, d) ==
  \/ Between(a, b, c) \/ Between(a, b, d) \/ Between(c, d, a) \/ Between(c, d, b)
  \/ (Sgn(Cr(a, b, c)) * Sgn(Cr(a, b, d)) < 0 /\ Sgn(Cr(c, d, a)) * Sgn(Cr(c, d, b)) < 0)
Simple(g) == LET n == Len(g) IN
  /\ \A k, l \in 1..n : k < l => g[k] # g[l]
  /\ \A k, l \in 1..n : (k < l /\ l # k + 1 /\ ~(k = 1 /\ l = n)) => ~SegMeet(g[k], g[Nx(k, n)], g[l], g[Nx(l, n)])
  /\ \A k \in 1..n : LET a == g[k] b == g[Nx(k, n)] c == g[Nx(Nx(k, n), n)] IN ~(Cr(a, b, c) = 0 /\ Dt2(Sub2(a, b), Sub2(c, b)) >= 0)
\* convex sets given as ordered rings (a point, a segment, or a convex polygon of either orientation)
InRing(g, p) == IF Len(g) = 1 THEN g[1] = p
                ELSE IF Len(g) = 2 THEN Between(g[1], g[2], p)
                ELSE (\A k \in 1..Len(g) : Cr(g[k], g[Nx(k, Len(g))], p) >= 0) \/ (\A k \in 1..Len(g) : Cr(g[k], g[Nx(k, Len(g))], p) <= 0)
Share2(g, h) == \/ \E k \in 1..Len(g) : InRing(h, g[k])
                \/ \E k \in 1..Len(h) : InRing(g, h[k])
                \/ (Len(g) > 1 /\ Len(h) > 1 /\ \E k \in 1..Len(g), l \in 1..Len(h) : SegMeet(g[k], g[Nx(k, Len(g))], h[l], h[Nx(l, Len(h))]))
\* the lines of polygon g's edges have all of h on the outer side: no common interior point
Area2(g) == LET RECURSIVE A(_) A(k) == IF k > Len(g) THEN 0 ELSE Cr(<<0, 0>>, g[k], g[Nx(k, Len(g))]) + A(k + 1) IN A(1)
WeakSide(g, h) == LET s == Sgn(Area2(g)) IN \E k \in 1..Len(g) : \A p \in Set(h) : s * Cr(g[k], g[Nx(k, Len(g))], p) <= 0
ApartInside(g, h) == WeakSide(g, h) \/ WeakSide(h, g)
\* ---- space ----
Sub3(p, q) == <<p[1] - q[1], p[2] - q[2], p[3] - q[3]>>
Add3(p, q) == <<p[1] + q[1], p[2] + q[2], p[3] + q[3]>>
Neg3(p) == <<-p[1], -p[2], -p[3]>>
Dot(p, q) == p[1] * q[1] + p[2] * q[2] + p[3] * q[3]
Cross(p, q) == <<p[2] * q[3] - p[3] * q[2], p[3] * q[1] - p[1] * q[3], p[1] * q[2] - p[2] * q[1]>>
Scale3(c, p) == <<c * p[1], c * p[2], c * p[3]>>
O3 == <<0, 0, 0>>
Nrm(p, q, r) == Cross(Sub3(q, p), Sub3(r, p))
Det(p, q, r, s) == Dot(Nrm(p, q, r), Sub3(s, p))
Collinear3(P) == \A p \in P : LET b == CHOOSE b \in P : TRUE IN \A q \in P : Nrm(b, p, q) = O3
Coplanar(s) ==
  LET n == Len(s) IN
  IF n <= 3 THEN TRUE
  ELSE \A j, k \in 2..n : j < k =>
         LET v == Nrm(s[1], s[j], s[k]) IN v # O3 => \A l \in (k + 1)..n : Dot(v, Sub3(s[l], s[1])) = 0
\* supporting planes of P: primitive outward normal and offset relative to the point o
Planes(P, o) == UNION {{<<g[1], Dot(g[1], Sub3(p, o))>> : g \in UNION {{<<<<v[1] \div k, v[2] \div k, v[3] \div k>>>> : k \in {Gcd(v[1], Gcd(v[2], v[3]))}}
                                                                : v \in {Nrm(p, q, r) : q, r \in P} \ {O3}}} : p \in P}
Facets(P, o) == {f \in Planes(P, o) : \A s \in P : Dot(f[1], Sub3(s, o)) <= f[2]}
Some(P) == CHOOSE p \in P : TRUE
Span3(V) == \E u, v, w \in V : Dot(Cross(u, v), w) # 0
On(P, o, F) == {p \in P : \E f \in F : Dot(f[1], Sub3(p, o)) = f[2]}
Corners(P, o, F) == {p \in P : Span3({f[1] : f \in {g \in F : Dot(g[1], Sub3(p, o)) = g[2]}})}
Extreme(P) == UNION {Corners(P, Some(P), F) : F \in {Facets(P, Some(P))}}
OnBoundary(P) == UNION {On(P, Some(P), F) : F \in {Facets(P, Some(P))}}
\* extreme points of a planar set: ends of supporting lines within the plane
ExtremeFlat(P) ==
  IF Cardinality(P) = 1 THEN P
  ELSE IF Collinear3(P) THEN {p \in P : \A q, r \in P \ {p} : Dot(Sub3(q, p), Sub3(r, p)) > 0}
  ELSE LET v == CHOOSE v \in {Nrm(p, q, r) : p, q, r \in P} : v # O3
           E == {<<p, q>> \in P \X P : p # q /\ \A s \in P : Dot(Cross(v, Sub3(q, p)), Sub3(s, p)) >= 0}
       IN {p \in P : \E e, f \in E : Dot(Cross(v, Sub3(e[2], e[1])), Sub3(p, e[1])) = 0 /\ Dot(Cross(v, Sub3(f[2], f[1])), Sub3(p, f[1])) = 0
                                     /\ Cross(Sub3(e[2], e[1]), Sub3(f[2], f[1])) # O3}
\* the origin lies in the hull of S: in the hull of at most four of its points (Caratheodory)
InSeg0(a, b) == Cross(a, b) = O3 /\ Dot(a, b) <= 0
InTri0(a, b, c) == LET n == Nrm(a, b, c) IN n # O3 /\ Dot(n, a) = 0 /\ Dot(n, Cross(a, b)) >= 0 /\ Dot(n, Cross(b, c)) >= 0 /\ Dot(n, Cross(c, a)) >= 0
InTet0(a, b, c, d) == LET v == Sgn(Det(a, b, c, d)) IN
  /\ v # 0 /\ v * Det(O3, b, c, d) >= 0 /\ v * Det(a, O3, c, d) >= 0 /\ v * Det(a, b, O3, d) >= 0 /\ v * Det(a, b, c, O3) >= 0
In0(S) == \/ O3 \in S
          \/ \E a, b \in S : a # b /\ InSeg0(a, b)
          \/ \E a, b, c \in S : InTri0(a, b, c)
          \/ \E a, b, c, d \in S : InTet0(a, b, c, d)
InConv(p, S) == In0({Sub3(s, p) : s \in S})
\* certificates: a direction separating the sets strictly; a common point of the hulls (weights of equal total)
RECURSIVE SumS(_)
SumS(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumS(Tail(s))
RECURSIVE Comb(_, _)
Comb(w, s) == IF s = <<>> THEN O3 ELSE Add3(Scale3(Head(w), Head(s)), Comb(Tail(w), Tail(s)))
SeparatedBy(d, A, B) == \A a \in Set(A), b \in Set(B) : Dot(d, a) < Dot(d, b)
NonNeg(w) == \A k \in 1..Len(w) : w[k] >= 0
CommonAt(l, m, A, B) ==
  /\ Len(l) = Len(A) /\ Len(m) = Len(B) /\ NonNeg(l) /\ NonNeg(m)
  /\ SumS(l) > 0 /\ SumS(l) = SumS(m) /\ Comb(l, A) = Comb(m, B)
\* a plane through the origin with A strictly on one side and B on the other / a common direction of the cones
SplitBy(d, A, B) == (\A a \in Set(A) : Dot(d, a) > 0) /\ (\A b \in Set(B) : Dot(d, b) < 0)
ConesMeet(l, m, A, B) ==
  /\ Len(l) = Len(A) /\ Len(m) = Len(B) /\ NonNeg(l) /\ NonNeg(m)
  /\ SumS(l) + SumS(m) > 0 /\ Comb(l, A) = Comb(m, B)
\* ---- closest points: x is closest to the origin in the hull of V iff x.(v - x) >= 0 for all v in V ----
\* candidates <<X, D>> = X / D: feet of the perpendiculars on vertices, edges and faces
EdgeFoot(a, b) == LET u == Sub3(b, a) D == Dot(u, u) s == -Dot(a, u) IN <<Add3(Scale3(D, a), Scale3(s, u)), D, s >= 0 /\ s <= D>>
FaceFoot(a, b, c) ==
  LET n == Nrm(a, b, c) D == Dot(n, n) h == Dot(n, a)
      in(p, q) == Dot(n, Cross(Sub3(q, p), Neg3(p))) >= 0        \* the foot is on the inner side of edge pq
  IN <<Scale3(h, n), D, in(a, b) /\ in(b, c) /\ in(c, a)>>
Feet(V) == {<<v, 1, TRUE>> : v \in V}
           \cup {EdgeFoot(p[1], p[2]) : p \in {e \in V \X V : e[1] # e[2]}}
           \cup {FaceFoot(p[1], p[2], p[3]) : p \in {f \in V \X V \X V : Nrm(f[1], f[2], f[3]) # O3}}
Nearest(x, V) == \A v \in V : x[2] * Dot(x[1], v) >= Dot(x[1], x[1])
\* exact closest point of the hull of V (a segment, triangle or tetrahedron not containing the origin) to the origin
ClosestTo0(V) == CHOOSE x \in Feet(V) : x[3] /\ Nearest(x, V)
HasClosest(V) == \E x \in Feet(V) : x[3] /\ Nearest(x, V)
At(x) == [k \in 1..3 |-> Norm(x[1][k], x[2])]
\* ---- two segments: candidates <<squared distance, t, u>> for the closest pair p + t (q - p), x + u (y - x) ----
RMin0(S) == CHOOSE a \in S : \A b \in S : RLe(a, b)
\* the point of segment ab closest to p: squared distance and parameter
OnSeg(p, a, b) ==
  LET u == Sub3(b, a) w == Sub3(p, a) D == Dot(u, u) s == Dot(w, u) IN
  IF D = 0 \/ s <= 0 THEN <<R(Dot(w, w)), Zero>>
  ELSE IF s >= D THEN <<R(Dot(Sub3(p, b), Sub3(p, b))), One>>
  ELSE LET c == Cross(u, w) IN <<Norm(Dot(c, c), D), Norm(s, D)>>
SegPairs(p, q, x, y) ==
  LET d1 == Sub3(q, p) d2 == Sub3(y, x) r == Sub3(p, x) n == Cross(d1, d2) D == Dot(n, n)
      a == Dot(d1, d1) b == Dot(d1, d2) c == Dot(d2, d2) d == Dot(d1, r) e == Dot(d2, r)
      tn == b * e - c * d  un == a * e - b * d  h == Dot(r, n)
      sq(v) == RMul(v, R(h))
      S1(k, z) == <<k[1], z, k[2]>>
      S2(k, z) == <<k[1], k[2], z>>
  IN {S1(OnSeg(p, x, y), Zero), S1(OnSeg(q, x, y), One), S2(OnSeg(x, p, q), Zero), S2(OnSeg(y, p, q), One)}
     \cup (IF D # 0 /\ 0 <= tn /\ tn <= D /\ 0 <= un /\ un <= D THEN {<<sq(Norm(h, D)), Norm(tn, D), Norm(un, D)>>} ELSE {})
ClosestPairs(p, q, x, y) == LET S == SegPairs(p, q, x, y) m == RMin0({k[1] : k \in S}) IN {k \in S : k[1] = m}
=============================================================================
