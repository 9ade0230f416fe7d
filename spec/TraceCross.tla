----------------------------- MODULE TraceCross -----------------------------
(* Intersections of curves c[1..4] and surfaces s[1..2] (I01 I02 I03).         *)
EXTENDS Cross, TraceLog
VARIABLES sc, i, st
NoC == [set |-> FALSE]
Start == [c |-> <<NoC, NoC, NoC, NoC>>, s |-> <<NoC, NoC>>]
Acc(s) == [ok |-> TRUE, why |-> "", st |-> s]
Rej(w) == [ok |-> FALSE, why |-> w, st |-> Start]
HN(cp) == [k \in 1..Len(cp) |-> HNorm(cp[k])]
\* 2^-e in 10^-9 (rounded up) and in 1/1024
Nano(e) == 1000000000 \div (2 ^ e) + 1
InUnits(e) == IF e >= 10 THEN 1 ELSE 2 ^ (10 - e)
Inside(o, lo, hi, slack) == GeqR(o, lo, slack) /\ LeqR(o, hi, slack)
Close(p, r, tol) == \A j \in 1..3 : NearObs(p[j], r[j], tol)
\* what an intersection point says about itself: both surfaces have it (within tol), and the parameters agree
Consistent(r, tol) ==
  /\ r.i \in 0..3 /\ r.s1 = r.u1 /\ r.s2 = r.u2 /\ r.sp = (IF r.f THEN r.u2 ELSE r.u1)
  /\ Close(r.p, r.q, tol + Tol) /\ Close(r.at, r.p, tol + Tol) /\ Close(r.at, r.q, tol + Tol)
  /\ (IF r.f THEN r.u1 ELSE r.u2)[IF r.i < 2 THEN 2 ELSE 1] = r.t
\* it lies on the boundary curve of the index: u = lo, u = hi, v = lo, v = hi
BoundOf(x, k) == CASE k = 0 -> ULo(x) [] k = 1 -> UHi(x) [] k = 2 -> VLo(x) [] OTHER -> VHi(x)
IsoOf(x, k, t) == IF k < 2 THEN IsoU(x, t) ELSE IsoV(x, t)
OnBoundary(r, x, y) == LET own == IF r.f THEN r.u1 ELSE r.u2 IN NearR(own[IF r.i < 2 THEN 1 ELSE 2], BoundOf(IF r.f THEN x ELSE y, r.i), 1)
\* a certified point of both surfaces, x the one whose iso line (number m.i, at m.fix) crosses the other
TwoCert(x, y, m) == IF m.f THEN MeetCert(IsoOf(x, m.i, m.fix), y, m) ELSE MeetCert(IsoOf(y, m.i, m.fix), x, m)
\* the strip a..b of surface x lies above surface y along d
AllCp(x) == UNION {{x.cp[j][k] : k \in 1..NV(x)} : j \in 1..NU(x)}
Apart(x, y, z) == With(SRight(SLeft(x, z.dir, z.b), z.dir, z.a), LAMBDA w :
                    MaxOf({UpP(z.n, h) : h \in AllCp(y)}) < MinOf({DnP(z.n, h) : h \in AllCp(w)}))
\* parameter of a certified point on the first surface
Own(m, dir) == IF m.f THEN (IF (m.i < 2) = (dir = 0) THEN m.fix ELSE m.t) ELSE (IF dir = 0 THEN m.u ELSE m.v)
MStep(s, e) ==
  LET o == e.obs IN
  IF o.ok = 0 THEN Rej(e.op \o " failed")
  ELSE
  CASE e.op = "cnew" -> With([set |-> TRUE, deg |-> e.deg, kn |-> e.kn, cp |-> HN(e.cp), per |-> FALSE], LAMBDA c : Acc([s EXCEPT !.c[e.k] = c]))
    [] e.op = "snew" -> With([set |-> TRUE, du |-> e.du, dv |-> e.dv, ku |-> e.ku, kv |-> e.kv, cp |-> [a \in 1..Len(e.cp) |-> HN(e.cp[a])]], LAMBDA c : Acc([s EXCEPT !.s[e.k] = c]))
    [] e.op = "ccx" ->
        LET c1 == s.c[e.a]  c2 == s.c[e.b]  tol == Nano(e.tol)
            Cert(x) == IF x.kind = "box" THEN BoxCert(c1, c2, x, InUnits(e.tol)) ELSE PointCert(c1, c2, x, InUnits(e.tol))
            Found(x) == \E k \in 1..Len(o.r) : /\ Inside(o.r[k].s, RSub(x.s[1], x.E[1]), RAdd(x.s[2], x.E[1]), tol)
                                               /\ Inside(o.r[k].t, RSub(x.t[1], x.E[2]), RAdd(x.t[2], x.E[2]), tol)
        IN IF ~o.in THEN Rej("reported parameters outside the domains")
           ELSE IF \E k \in 1..Len(o.r) : ~Close(o.r[k].p, o.r[k].q, 2 * tol + tol \div 8 + Tol) THEN Rej("reported points differ")
           ELSE IF \E k \in 1..Len(e.cert) : ~Cert(e.cert[k]) THEN Rej("BAD SCENARIO: crossing certificate")
           ELSE IF \E k \in 1..Len(e.cert) : ~Found(e.cert[k]) THEN Rej("a crossing is not reported")
           ELSE Acc(s)
    [] e.op = "csx" ->
        LET c == s.c[e.a]  x == s.s[e.b]  tol == Nano(e.tol)
            Found(m) == \E k \in 1..Len(o.r) : /\ Inside(o.r[k].x[1], RSub(m.t, m.E[1]), RAdd(m.t, m.E[1]), tol)
                                               /\ Inside(o.r[k].x[2], RSub(m.u, m.E[2]), RAdd(m.u, m.E[2]), tol)
                                               /\ Inside(o.r[k].x[3], RSub(m.v, m.E[3]), RAdd(m.v, m.E[3]), tol)
        IN IF ~o.in THEN Rej("reported parameters outside the domains")
           ELSE IF \E k \in 1..Len(o.r) : ~Close(o.r[k].p, o.r[k].q, tol + Tol) THEN Rej("reported points differ")
           ELSE IF \E k \in 1..Len(o.r) : ~Close(o.r[k].at, o.r[k].p, Tol) THEN Rej("the reported point is not the curve's")
           ELSE IF \E k \in 1..Len(e.cert) : ~MeetCert(c, x, e.cert[k]) THEN Rej("BAD SCENARIO: crossing certificate")
           ELSE IF \E k \in 1..Len(e.cert) : ~Found(e.cert[k]) THEN Rej("a crossing is not reported")
           ELSE Acc(s)
    [] e.op = "bnd" ->
        LET x == s.s[e.a]  y == s.s[e.b]  tol == Nano(e.tol)
            Same(r, m) == /\ r.f = m.f /\ r.i = m.i /\ Inside(r.t, RSub(m.t, m.E[1]), RAdd(m.t, m.E[1]), tol)
                          /\ Inside(r.sp[1], RSub(m.u, m.E[2]), RAdd(m.u, m.E[2]), tol) /\ Inside(r.sp[2], RSub(m.v, m.E[3]), RAdd(m.v, m.E[3]), tol)
            At(m) == With(HSurf(IF m.f THEN y ELSE x, m.u, m.v), LAMBDA h : [j \in 1..3 |-> Norm(h[j], h[4])])
            Found(m) == \E k \in 1..Len(o.r) : Same(o.r[k], m) \/ With(At(m), LAMBDA P : \A j \in 1..3 : NearR(o.r[k].at[j], P[j], 8 * tol))
        IN IF ~o.in THEN Rej("reported parameters outside the domains")
           ELSE IF \E k \in 1..Len(o.r) : ~Consistent(o.r[k], tol) THEN Rej("a boundary intersection is not a point of both surfaces, or its parameters disagree")
           ELSE IF \E k \in 1..Len(o.r) : ~OnBoundary(o.r[k], x, y) THEN Rej("a boundary intersection is not on the boundary of its index")
           ELSE IF \E k \in 1..Len(e.cert) : e.cert[k].fix # BoundOf(IF e.cert[k].f THEN x ELSE y, e.cert[k].i) \/ ~TwoCert(x, y, e.cert[k]) THEN Rej("BAD SCENARIO: crossing certificate")
           ELSE IF \E k \in 1..Len(e.cert) : ~Found(e.cert[k]) THEN Rej("a crossing of a boundary curve is not reported")
           ELSE Acc(s)
    [] e.op = "bsort" ->
        LET n == Len(e.pts)
            D2(a, b) == LET d(j) == e.pts[a][j] - e.pts[b][j] IN d(1) * d(1) + d(2) * d(2) + d(3) * d(3)
            Ks == UNION {{o.r[a][b].k : b \in 1..Len(o.r[a])} : a \in 1..Len(o.r)}
            Size(a) == Len(o.r[a])
            \* the points still free when sequence a starts
            Free(a) == (1..n) \ UNION {{o.r[x][b].k : b \in 1..Len(o.r[x])} : x \in 1..(a - 1)}
            total == Cardinality(UNION {{<<a, b>> : b \in 1..Len(o.r[a])} : a \in 1..Len(o.r)})
        IN IF Ks # 1..n \/ total # n THEN Rej("the sequences do not hold every point once")
           ELSE IF \E a \in 1..Len(o.r) : Size(a) \notin 1..2 \/ (Size(a) = 1 /\ Cardinality(Free(a)) > 1) THEN Rej("a sequence does not join two points although two are left")
           ELSE IF \E a \in 1..Len(o.r) : \E b \in 1..Size(a) : \E j \in 1..3 : ~NearR(o.r[a][b].at[j], R(e.pts[o.r[a][b].k][j]), 0) THEN Rej("a point was changed")
           ELSE IF \E a \in 1..Len(o.r) : Size(a) = 2 /\ \E c \in Free(a) \ {o.r[a][1].k} : D2(o.r[a][1].k, c) < D2(o.r[a][1].k, o.r[a][2].k) THEN Rej("a sequence does not join a point with the nearest free one")
           ELSE Acc(s)
    [] e.op = "ssx" ->
        LET x == s.s[e.a]  y == s.s[e.b]  tol == Nano(e.tol)
            Ends == {o.patches[k][j].u1 : k \in 1..Len(o.patches), j \in 1..2}
            Below(d, v) == (\E w \in Ends : LeqR(w[d + 1], v, tol)) \/ Len(o.points) > 0
            Above(d, v) == (\E w \in Ends : GeqR(w[d + 1], v, tol)) \/ Len(o.points) > 0
            \* branches on both sides of a strip that the other surface does not reach
            Two(z) == (\E k \in 1..Len(e.cert) : RLt(Own(e.cert[k], z.dir), z.a)) /\ (\E k \in 1..Len(e.cert) : RLt(z.b, Own(e.cert[k], z.dir)))
        IN IF ~o.in THEN Rej("reported parameters outside the domains")
           ELSE IF \E k \in 1..Len(o.patches) : \E j \in 1..2 : ~Consistent(o.patches[k][j], tol) THEN Rej("an end of a patch is not a point of both surfaces, or its parameters disagree")
           ELSE IF \E k \in 1..Len(o.points) : ~Close(o.points[k].at, o.points[k].p, 2 * tol + Tol) \/ ~Close(o.points[k].at, o.points[k].q, 2 * tol + Tol) THEN Rej("a point is not on both surfaces")
           ELSE IF \E k \in 1..Len(e.cert) : ~TwoCert(x, y, e.cert[k]) THEN Rej("BAD SCENARIO: crossing certificate")
           ELSE IF \E k \in 1..Len(e.strip) : ~Apart(x, y, e.strip[k]) \/ ~Two(e.strip[k]) THEN Rej("BAD SCENARIO: strip certificate")
           ELSE IF Len(e.cert) > 0 /\ Len(o.patches) + Len(o.points) = 0 THEN Rej("intersecting surfaces without a start point")
           ELSE IF \E k \in 1..Len(e.strip) : ~Below(e.strip[k].dir, e.strip[k].a) \/ ~Above(e.strip[k].dir, e.strip[k].b) THEN Rej("a branch of the intersection has no start point")
           ELSE Acc(s)
    [] OTHER -> Rej("BAD SCENARIO: op")
TR == INSTANCE TraceRun WITH TLog <- Log, Start <- Start, Step <- MStep
Init == TR!Init
Next == TR!Next
=============================================================================
