------------------------------- MODULE TraceBez -------------------------------
(* Histories over monomial surfaces (m), Bezier surfaces (s) and Gauss maps (g).*)
EXTENDS Mono, TLC, TraceLog
VARIABLES sc, i, st
None == [def |-> FALSE]
Start == [m |-> [k \in 1..4 |-> None], s |-> [k \in 1..4 |-> None], g |-> [k \in 1..10 |-> None]]
Rej(w) == [ok |-> FALSE, why |-> w, st |-> Start]
Acc(s) == [ok |-> TRUE, why |-> "", st |-> s]
If(c, s, w) == IF c THEN Acc(s) ELSE Rej(w)
\* tolerance for values that went through the inverse of a conversion matrix
Tol == 2000
\* the observed matrix of points o[i][j] = <<x, y, z>> is the net
NearNet(o, net, tol) ==
  /\ Len(o) = Len(net[1]) /\ \A a \in 1..Len(o) : Len(o[a]) = Len(net[1][1])
  /\ \A a \in 1..Len(o) : \A b \in 1..Len(o[a]) : \A c \in 1..3 : NearR(o[a][b][c], net[c][a][b], tol)
FlatNet(o, net, sg, tol) ==
  LET n == Len(net[1]) m == Len(net[1][1]) IN
  Len(o) = n * m /\ \A a \in 1..n : \A b \in 1..m : \A c \in 1..3 : NearR(o[(a - 1) * m + b][c], RMul(R(sg), net[c][a][b]), tol)
MonoD(d, co) == d.n = Len(co[1]) /\ d.m = Len(co[1][1]) /\ NearNet(d.co, co, 20)
\* a dumped surface: net with unit weights, degrees, clamped knots on the domain dom
\* observed lo and hi are the least and greatest entry of M
Extent(lo, hi, M, tol) ==
  /\ \A a \in 1..Len(M) : \A b \in 1..Len(M[1]) : LeqR(lo, M[a][b], tol) /\ GeqR(hi, M[a][b], tol)
  /\ \E a \in 1..Len(M) : \E b \in 1..Len(M[1]) : NearR(lo, M[a][b], tol)
  /\ \E a \in 1..Len(M) : \E b \in 1..Len(M[1]) : NearR(hi, M[a][b], tol)
SurfD(d, net, dom, tol) ==
  LET n == Len(net[1]) m == Len(net[1][1])
      kn(o, k, iv) == Len(o) = 2 * k /\ \A a \in 1..k : NearR(o[a], iv[1], 1) /\ NearR(o[k + a], iv[2], 1)
  IN IF d.deg # <<n - 1, m - 1>> \/ d.size # <<n, m>> THEN "degree or size"
     ELSE IF ~(Len(d.cp) = n /\ \A a \in 1..n : Len(d.cp[a]) = m) THEN "shape of the net"
     ELSE IF ~NearNet(d.cp, net, tol) THEN "control points"
     ELSE IF ~(\A a \in 1..n : \A b \in 1..m : NearR(d.cp[a][b][4], One, 1)) THEN "weights"
     ELSE IF ~kn(d.ku, n, dom[1]) \/ ~kn(d.kv, m, dom[2]) THEN "knots"
     ELSE IF ~(\A k, l \in 1..2 : NearR(d.iv[k][l], dom[k][l], 1)) THEN "domain"
     ELSE IF ~(\A c \in 1..3 : Extent(d.lo[c], d.hi[c], net[c], tol)) THEN "bounding box"
     ELSE ""
UnitDom == <<<<Zero, One>>, <<Zero, One>>>>
Rat3(cp) == TLCEval([c \in 1..3 |-> [a \in 1..Len(cp) |-> [b \in 1..Len(cp[1]) |-> R(cp[a][b][c])]]])
Mk(k) == [def |-> TRUE, co |-> k]
Loc(x, iv) == RDiv(RSub(x, iv[1]), RSub(iv[2], iv[1]))
XStep(s, e) ==
  LET o == e.obs IN
  IF o.ok = 0 THEN Rej(e.op \o " failed")
  ELSE
  CASE e.op = "new" -> With([def |-> TRUE, net |-> Rat3(e.cp), dom |-> e.dom], LAMBDA x : Acc([s EXCEPT !.s[e.k] = x]))
    [] e.op = "mono" -> With(MonoOf(s.s[e.a].net), LAMBDA co : If(MonoD(o.d, co) /\ SurfD(o.s, s.s[e.a].net, s.s[e.a].dom, 1) = "", [s EXCEPT !.m[e.k] = Mk(co)], "monomial coefficients"))
    [] e.op = "mco" -> With(Rat3(e.co), LAMBDA co : If(MonoD(o.d, co), [s EXCEPT !.m[e.k] = Mk(co)], "monomial from coefficients"))
    [] e.op = "mcp" -> If(MonoD(o.d, s.m[e.a].co) /\ MonoD(o.f, s.m[e.a].co), [s EXCEPT !.m[e.k] = s.m[e.a]], "copy of a monomial surface")
    [] e.op = "mpd" -> With(IF e.dir = 0 THEN DU(s.m[e.a].co) ELSE DV(s.m[e.a].co), LAMBDA co : If(MonoD(o.d, co) /\ (e.k = e.a \/ MonoD(o.f, s.m[e.a].co)), [s EXCEPT !.m[e.k] = Mk(co)], "partial derivative"))
    [] e.op = "mnrm" -> With(Normals(s.m[e.a].co), LAMBDA co : If(MonoD(o.d, co) /\ (e.k = e.a \/ MonoD(o.f, s.m[e.a].co)), [s EXCEPT !.m[e.k] = Mk(co)], "normal polynomial"))
    [] e.op = "mtob" ->
        With(BezOf(s.m[e.a].co), LAMBDA net :
          LET w == SurfD(o.d, net, UnitDom, Tol)
          IN IF w # "" THEN Rej("conversion to Bezier form: " \o w) ELSE If(MonoD(o.f, s.m[e.a].co), [s EXCEPT !.s[e.k] = [def |-> TRUE, net |-> net, dom |-> UnitDom]], "conversion changed its operand"))
    [] e.op = "ev" -> LET q == s.s[e.k] u == Loc(e.u, q.dom[1]) v == Loc(e.v, q.dom[2])
                      IN If(\A c \in 1..3 : With(At(q.net[c], u, v), LAMBDA x : NearR(o.p[c], x, Tol)), s, "value of the surface")
    [] e.op = "gmap" ->
        With(BezOf(Normals(MonoOf(s.s[e.a].net))), LAMBDA net :
          LET w == SurfD(o.d, net, UnitDom, Tol)
          IN IF w # "" THEN Rej("Gauss map: " \o w) ELSE Acc([s EXCEPT !.s[e.k] = [def |-> TRUE, net |-> net, dom |-> UnitDom]]))
    [] e.op = "gb" ->
        LET src == s.s[e.a].net G(net) == LET w == SurfD(o.d, net, UnitDom, Tol)
           IN IF w # "" THEN Rej("Gauss map: " \o w)
           ELSE If(FlatNet(o.pts, net, 1, Tol) /\ FlatNet(o.inv, net, -1, Tol) /\ SurfD(o.s, src, s.s[e.a].dom, 1) = "",
                   [s EXCEPT !.g[e.k] = [def |-> TRUE, net |-> net, dom |-> UnitDom, src |-> src]], "directions of the Gauss map")
        IN With(BezOf(Normals(MonoOf(src))), G)
    [] e.op = "gs" ->
        LET g == s.g[e.a]
            md(k) == RMul(<<1, 2>>, RAdd(g.dom[k][1], g.dom[k][2]))
            dm(a, b) == <<IF a = 1 THEN <<g.dom[1][1], md(1)>> ELSE <<md(1), g.dom[1][2]>>, IF b = 1 THEN <<g.dom[2][1], md(2)>> ELSE <<md(2), g.dom[2][2]>>>>
            qn(k) == LET a == ((k - 1) \div 2) + 1 b == ((k - 1) % 2) + 1 IN [def |-> TRUE, net |-> Quarter(g.net, a, b), dom |-> dm(a, b), src |-> g.src]
            ok(qs) == \A k \in 1..4 : LET x == qs[k] IN SurfD(o.ds[k], x.net, x.dom, Tol) = "" /\ FlatNet(o.pts[k], x.net, 1, Tol) /\ FlatNet(o.inv[k], x.net, -1, Tol)
        IN With([k \in 1..4 |-> qn(k)], LAMBDA qs :
             IF ~ok(qs) THEN Rej("quarters of the Gauss map")
             ELSE If(SurfD(o.d, g.net, g.dom, Tol) = "", [s EXCEPT !.g = [k \in 1..10 |-> IF k \in e.b..(e.b + 3) THEN qs[k - e.b + 1] ELSE s.g[k]]], "subdivision changed the Gauss map"))
    [] e.op = "gev" ->              \* against the cross product of the partial derivatives of the surface itself
        With(NormalAt(s.g[e.k].src, e.u, e.v), LAMBDA n : If(\A c \in 1..3 : NearR(o.p[c], n[c], Tol), s, "Gauss map is not the normal field"))
    [] e.op = "inv" -> If(Len(o.r) = Len(e.p) /\ \A k \in 1..Len(e.p) : \A c \in 1..3 : NearR(o.r[k][c], R(-e.p[k][c]), 0), s, "opposite directions")
    [] e.op = "bp" ->
        LET n == e.n IN
        IF Len(o.b) # n + 1 THEN Rej("size of the conversion matrix")
        ELSE If(\A a, b \in 1..(n + 1) : /\ NearR(o.b[a][b], R(IF b > a THEN 0 ELSE Sg(a - b) * Choose(n, a - 1) * Choose(a - 1, b - 1)), 0)
                                         /\ NearR(o.iv[a][b], IF b > a THEN Zero ELSE Norm(Choose(a - 1, b - 1), Choose(n, b - 1)), 20), s, "conversion matrix")
    [] e.op = "tens" ->             \* the free functions; the result argument held something else before
        LET A == Rat3(e.p) C == Rat3(e.q) IN
        IF With(DU(A), LAMBDA x : ~NearNet(o.u, x, 0)) \/ With(DV(A), LAMBDA x : ~NearNet(o.v, x, 0)) THEN Rej("partial derivative of coefficients")
        ELSE If(With(PCross(A, C), LAMBDA x : NearNet(o.c, x, 0)), s, "cross product of coefficients")
    [] OTHER -> Rej("BAD SCENARIO: op")
TR == INSTANCE TraceRun WITH TLog <- Log, Start <- Start, Step <- XStep
Init == TR!Init
Next == TR!Next
=============================================================================
