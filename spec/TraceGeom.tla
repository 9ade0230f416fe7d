------------------------------ MODULE TraceGeom ------------------------------
(* Hulls, polygons, planes, closest points and separation tests are queries on *)
(* an immutable input: each event carries its input and the observed answer.   *)
(* Coordinates are integers in units of 1/s.den.                               *)
EXTENDS Geom, TLC, TraceLog
VARIABLES sc, i, st
Start == [den |-> 1]
Rej(w) == [ok |-> FALSE, why |-> w, st |-> Start]
Acc(s) == [ok |-> TRUE, why |-> "", st |-> s]
If(c, s, w) == IF c THEN Acc(s) ELSE Rej(w)
B(x) == IF x THEN 1 ELSE 0
Tol == 20
NearV(o, v, tol) == \A k \in 1..3 : NearR(o[k], v[k], tol)
Vec(s, p) == [k \in 1..3 |-> Norm(p[k], s.den)]
Class2(h) == IF Len(h) = 1 THEN "point" ELSE IF Len(h) = 2 THEN "line" ELSE "flat"
\* the equation <<a, b, c, d>> of the plane described by an event field (integers; the distance scale is s.den)
Eq(p) ==
  CASE p.k = "eq" -> p.v
    [] p.k = "pn" -> Append(p.n, -Dot(p.n, p.o))
    [] p.k = "n" -> Append(p.n, 0)
    [] p.k = "z" -> <<0, 0, 1, 0>>
    [] p.k = "pts" -> LET n == Nrm(p.p[1], p.p[2], p.p[3]) IN Append(n, -Dot(n, p.p[1]))
N3(q) == <<q[1], q[2], q[3]>>
Val(q, p) == Dot(N3(q), p) + q[4]
Orient(p) == p.k # "pts"              \* the sign of the distance is fixed by the given normal
With(x, Op(_)) == CHOOSE r \in {Op(y) : y \in {x}} : TRUE

XStep(s, e) ==
  LET o == e.obs IN
  IF e.op = "unit" THEN Acc([den |-> e.den])
  ELSE IF o.ok = 0 THEN Rej(e.op \o " failed")
  ELSE
  CASE e.op = "h2" ->
        IF ~IsHull2(o.h, Set(e.pts)) THEN Rej("2D hull")
        ELSE If(IsHull2(o.g, Set(e.pts)) /\ o.c = Class2(o.g), s, "2D hull class")
    [] e.op = "h3" ->
        LET P == Set(e.pts) IN
        IF ~(Set(o.h) \subseteq P) THEN Rej("hull vertex that is no input point")
        ELSE IF Coplanar(e.pts)
             THEN IF Set(o.h) # ExtremeFlat(P) THEN Rej("hull of a planar set") ELSE If(o.c = Class2(o.h), s, "hull class")
             ELSE IF ~(Extreme(P) \subseteq Set(o.h)) THEN Rej("extreme point missing from the hull") ELSE IF ~(Set(o.h) \subseteq OnBoundary(P)) THEN Rej("hull vertex inside the hull") ELSE If(o.c = "volume", s, "hull class")
    [] e.op = "pip" ->
        IF ~Simple(e.g) \/ \E k \in 1..Len(e.q) : OnEdge(e.g, e.q[k]) \/ ~Generic(e.g, e.q[k], <<e.far, 1>>) THEN Rej("BAD SCENARIO: polygon")
        ELSE If(\A k \in 1..Len(e.q) : o.r[k] = B(Inside2(e.g, e.q[k], e.far)), s, "point in polygon")
    [] e.op = "rel" ->
        LET r == IF ~Share2(e.a, e.b) THEN "distance" ELSE IF ApartInside(e.a, e.b) THEN "touch" ELSE "intersect"
        IN If(o.r = r /\ o.s = r, s, "relation of convex polygons")
    [] e.op = "pn" ->
        LET n == Len(e.g)
            nv(k) == LET d == Sub2(e.g[Nx(k, n)], e.g[k]) IN <<d[2], -d[1]>>
        IN IF Len(o.n) # n \/ \E k \in 1..n : o.n[k] # nv(k) THEN Rej("edge normals")
           ELSE If(Len(o.u) = n /\ \A k \in 1..n : LET v == nv(k) l == Dt2(v, v) u == o.u[k] IN
                     /\ NearR(u[3], Norm(v[1] * v[1], l), Tol) /\ NearR(u[4], Norm(v[2] * v[2], l), Tol)
                     /\ (v[1] >= 0 => GeqR(u[1], Zero, 1)) /\ (v[1] <= 0 => LeqR(u[1], Zero, 1))
                     /\ (v[2] >= 0 => GeqR(u[2], Zero, 1)) /\ (v[2] <= 0 => LeqR(u[2], Zero, 1)), s, "unit edge normals")
    [] e.op = "sat2" -> LET r == B(~Share2(e.a, e.b)) IN If(o.r = r /\ o.s = r, s, "planar separation")
    [] e.op = "aabb" ->
        LET r == B(\E k \in 1..3 : \/ \A a \in Set(e.a), b \in Set(e.b) : a[k] < b[k]
                                   \/ \A a \in Set(e.a), b \in Set(e.b) : b[k] < a[k])
        IN If(o.r = r /\ o.s = r, s, "separation by boxes")
    [] e.op \in {"gjk", "sat3"} ->
        LET sep == IF e.op = "gjk" THEN 0 ELSE 1 IN
        IF e.cert = "apart"
        THEN IF ~SeparatedBy(e.d, e.a, e.b) THEN Rej("BAD SCENARIO: certificate")
             ELSE If(o.r = sep /\ o.s = sep, s, "separated sets reported as colliding")
        ELSE IF ~CommonAt(e.l, e.m, e.a, e.b) THEN Rej("BAD SCENARIO: certificate")
             ELSE If(o.r = 1 - sep /\ o.s = 1 - sep, s, "sets with a common point reported as separated")
    [] e.op = "sph" ->
        IF e.cert = "apart"
        THEN IF ~SplitBy(e.d, e.a, e.b) THEN Rej("BAD SCENARIO: certificate")
             ELSE If(o.r = 1 /\ o.s = 1, s, "separable directions not separated")
        ELSE IF ~ConesMeet(e.l, e.m, e.a, e.b) THEN Rej("BAD SCENARIO: certificate")
             ELSE If(o.r = 0 /\ o.s = 0, s, "inseparable directions reported separable")
    [] e.op = "gms" ->                 \* separable with both signs of one of the sets: two certificates
        LET ok(c, P, Q) == IF c.cert = "apart" THEN SplitBy(c.d, P, Q) ELSE ConesMeet(c.l, c.m, P, Q)
            nb == [k \in 1..Len(e.b) |-> Neg3(e.b[k])]
        IN IF ~ok(e.c1, e.a, e.b) \/ ~ok(e.c2, e.a, nb) THEN Rej("BAD SCENARIO: certificate")
           ELSE LET r == B(e.c1.cert = "apart" /\ e.c2.cert = "apart")
                IN If(o.r = r /\ o.s = r /\ o.g = r /\ o.h = r, s, "separability of normal cones")
    [] e.op = "dist" ->
        LET q == Eq(e.pl) n == N3(q) nn == Dot(n, n) IN
        IF ~NearR(o.od, Zero, Tol) THEN Rej("the origin of a plane is not on it")
        ELSE IF \E k \in 1..3 : ~ /\ NearR(o.nn[k], Norm(n[k] * n[k], nn), Tol)
                                  /\ (Orient(e.pl) /\ n[k] > 0 => GeqR(o.n[k], Zero, 0))
                                  /\ (Orient(e.pl) /\ n[k] < 0 => LeqR(o.n[k], Zero, 0)) THEN Rej("unit normal")
        ELSE If(\A k \in 1..Len(e.q) :
                 LET v == Val(q, e.q[k]) d == o.d[k] IN
                 /\ NearR(d[2], Norm(v * v, nn * (s.den * s.den)), Tol + Abs(v))
                 /\ NearObs(d[1], d[3], 1)
                 /\ (v = 0 => NearR(d[1], Zero, Tol) /\ NearR(d[4], Zero, Tol))
                 /\ (Orient(e.pl) => /\ (v > 0 => GeqR(d[1], Zero, 0) /\ GeqR(d[4], Zero, 0))
                                     /\ (v < 0 => LeqR(d[1], Zero, 0) /\ LeqR(d[4], Zero, 0)))
                 \* points on the same side have the same sign whatever the orientation
                 /\ \A l \in 1..Len(e.q) : (v > 0 /\ Val(q, e.q[l]) < 0) =>
                       \/ (GeqR(d[1], Zero, 0) /\ LeqR(o.d[l][1], Zero, 0)) \/ (LeqR(d[1], Zero, 0) /\ GeqR(o.d[l][1], Zero, 0)),
                s, "signed distance")
    [] e.op \in {"ray", "seg"} ->
        LET q == Eq(e.pl) v == IF e.op = "ray" THEN e.b ELSE Sub3(e.b, e.a)
            D == Dot(N3(q), v)  N == -Val(q, e.a)
            hit == IF D = 0 THEN N = 0 ELSE e.op = "ray" \/ LET t == Norm(N, D) IN RSgn(t) >= 0 /\ RLe(t, One)
            pt == IF D = 0 THEN Vec(s, e.a) ELSE LET t == Norm(N, D) IN [k \in 1..3 |-> RMul(RAdd(R(e.a[k]), RMul(t, R(v[k]))), <<1, s.den>>)]
        IN IF o.r # B(hit) THEN Rej("line meets plane")
           ELSE If(hit => NearV(o.p, pt, Tol), s, "intersection point of line and plane")
    [] e.op = "pp" ->
        LET q == Eq(e.p1) r == Eq(e.p2) x == Cross(N3(q), N3(r))
            on(w, p) == Abs(w[1] * p[1] + w[2] * p[2] + w[3] * p[3] + w[4] * 100000) <= Abs(w[1]) + Abs(w[2]) + Abs(w[3])
        IN IF o.r # B(x # O3) THEN Rej("planes meet")
           ELSE If(x # O3 => on(q, o.a) /\ on(q, o.b) /\ on(r, o.a) /\ on(r, o.b) /\ GeqR(o.l, <<1, 1000>>, 0), s, "intersection line of planes")
    [] e.op = "ppp" ->
        LET q == Eq(e.p1) r == Eq(e.p2) t == Eq(e.p3)
            dt(f, g, h) == Dot(Cross(f, g), h)
            D == dt(N3(q), N3(r), N3(t))
            col(k) == [c \in 1..3 |-> IF c = k THEN 4 ELSE c]
            row(w, k) == LET c == col(k) IN LET y(j) == IF c[j] = 4 THEN -w[4] ELSE w[c[j]] IN <<y(1), y(2), y(3)>>
        IN IF o.r # B(D # 0) THEN Rej("three planes meet")
           ELSE If(D # 0 => \A k \in 1..3 : NearR(o.p[k], Norm(dt(row(q, k), row(r, k), row(t, k)), D), Tol), s, "common point of three planes")
    [] e.op = "copl" -> If(o.r = B(Coplanar(e.pts)), s, "coplanar points")
    [] e.op = "frame" ->
        LET z == Cross(e.x, e.y)
            pt(u) == [k \in 1..3 |-> Norm(e.o[k] + e.x[k] * u[1] + e.y[k] * u[2], s.den)]
            inv(p) == LET t == Sub3(p, e.o) IN [k \in 1..3 |-> Norm(IF k = 1 THEN Dot(t, e.x) ELSE IF k = 2 THEN Dot(t, e.y) ELSE Dot(t, z), s.den)]
        IN IF \E k \in 1..Len(e.uv) : ~NearV(o.e[k], pt(e.uv[k]), Tol) THEN Rej("point at plane coordinates")
           ELSE If(\A k \in 1..Len(e.q) : LET w == o.v[k] x == inv(e.q[k]) IN NearV(w[1], x, Tol) /\ NearV(w[2], x, Tol) /\ NearR(w[3], x[3], Tol), s, "plane coordinates of a point")
    [] e.op = "cpl" ->
        LET n == Nrm(e.p[1], e.p[2], e.p[3]) IN
        IF \E k \in 1..Len(e.q) : Dot(n, Sub3(e.q[k], e.p[1])) # 0 THEN Rej("BAD SCENARIO: point off the plane")
        ELSE IF ~(NearR(o.xx, One, Tol) /\ NearR(o.xy, Zero, Tol) /\ NearR(o.yy, One, Tol)) THEN Rej("plane axes are not orthonormal")
        ELSE If(\A k \in 1..Len(e.q) : LET w == o.v[k] IN NearV(w[1], Vec(s, e.q[k]), 4 * Tol) /\ NearR(w[2], Zero, Tol) /\ NearR(w[3], Zero, Tol), s, "plane coordinates do not map back")
    [] e.op = "segd" ->
        LET p == e.p[1] q == e.p[2] x == e.p[3] y == e.p[4] ab(v) == IF v < 0 THEN -v ELSE v
            at(a, b, t) == [k \in 1..3 |-> RMul(RAdd(R(a[k]), RMul(t, R(b[k] - a[k]))), <<1, s.den>>)]
            on(a, b, t, c) == 0 <= t /\ t <= 100000 /\ \A k \in 1..3 : ab(c[k] - (a[k] * 100000 + t * (b[k] - a[k]))) <= 30
            df(c, d) == [k \in 1..3 |-> (c[k] - d[k]) \div 100]
        IN With(ClosestPairs(p, q, x, y), LAMBDA M : With(RMul((CHOOSE k \in M : TRUE)[1], <<1, s.den * s.den>>), LAMBDA m :
           IF ~(NearR(o.rr, m, 100) /\ NearR(o.qq, m, 100)) THEN Rej("distance of the segments")
           ELSE IF ~(on(p, q, o.tm[1], o.cm[1]) /\ on(x, y, o.tm[2], o.cm[2])) THEN Rej("closest points are not on the segments")
           ELSE IF Cardinality(M) = 1
                THEN LET k == CHOOSE k \in M : TRUE
                     IN If(/\ NearR(o.tu[1], k[2], Tol) /\ NearR(o.tu[2], k[3], Tol)
                           /\ NearV(o.c[1], at(p, q, k[2]), Tol) /\ NearV(o.c[2], at(x, y, k[3]), Tol), s, "closest pair of points")
                ELSE LET v == df(o.cm[1], o.cm[2]) IN If(ab(Dot(v, v) - o.rm * o.rm) <= 8 * o.rm + 20, s, "closest points are not at the reported distance")))
    [] e.op = "cproj" ->            \* from the centre e.o through e.q onto the plane z = 0
        If(\A k \in 1..2 : NearR(o.p[k], IF e.o[3] = e.q[3] THEN Norm(e.q[k], s.den)
                                         ELSE RMul(RAdd(R(e.o[k]), RMul(Norm(-e.o[3], e.q[3] - e.o[3]), R(e.q[k] - e.o[k]))), <<1, s.den>>), Tol), s, "central projection")
    [] e.op = "near" ->
        LET V == {Sub3(v, e.q) : v \in Set(e.pts)} IN
        IF ~HasClosest(V) THEN Rej("BAD SCENARIO: no closest point")
        ELSE LET x == ClosestTo0(V)
                 y == [k \in 1..3 |-> RMul(RAdd(At(x)[k], R(e.q[k])), <<1, s.den>>)]
             IN If(\A k \in 1..Len(o.p) : NearV(o.p[k], y, Tol), s, "closest point")
    [] e.op = "line" ->
        LET u == Sub3(e.b, e.a) t == Norm(Dot(Sub3(e.q, e.a), u), Dot(u, u))
            y == [k \in 1..3 |-> RMul(RAdd(R(e.a[k]), RMul(t, R(u[k]))), <<1, s.den>>)]
        IN If(\A k \in 1..4 : NearV(o.p[k], y, Tol), s, "closest point of a line")
    [] OTHER -> Rej("unknown event")
TR == INSTANCE TraceRun WITH TLog <- Log, Start <- Start, Step <- XStep
Init == TR!Init
Next == TR!Next
=============================================================================
