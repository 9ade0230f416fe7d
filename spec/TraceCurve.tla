------------------------------ MODULE TraceCurve ------------------------------
(* Transition relation of the NURBS curve API (properties C01-C08), resolved  *)
(* by recorded events.  The state is the curve held by each of four slots.   *)
EXTENDS BSplineObs, TLC, TraceLog
VARIABLES sc, i, st

NoCurve == [set |-> FALSE, per |-> FALSE, deg |-> 0, kn |-> <<>>, cp |-> <<>>]
Mk(deg, kn, cp, per) == [set |-> TRUE, per |-> per, deg |-> deg, kn |-> kn, cp |-> [k \in 1..Len(cp) |-> HNorm(cp[k])]]
CStart == [k \in 1..4 |-> NoCurve]

Acc(s) == [ok |-> TRUE, why |-> "", st |-> s]
Rej(w) == [ok |-> FALSE, why |-> w, st |-> CStart]
\* an observed dump d of the curve c expected in slot k, leading to state s
Expect(s, c, d, what) ==
  LET w == WhyNot(d, c) IN IF w = "" THEN Acc(s) ELSE Rej(what \o ": " \o w)
If(b, s, w) == IF b THEN Acc(s) ELSE Rej(w)
Refused(e) == e.obs.ok = 0 /\ e.obs.ex \in {"invalid_argument", "out_of_range", "runtime_error", "exception"}

MkPeriodic(deg, cp0) ==
  LET cp == [k \in 1..Len(cp0) |-> HNorm(cp0[k])]
      w == IF WrapsAlready(cp, deg) THEN cp ELSE Wrap(cp, deg)
  IN Mk(deg, UniformKnots(Len(w), deg), w, TRUE)
MkNew(e) ==
  LET n == Len(e.cp) IN
  CASE e.how = "full" -> Mk(e.deg, e.kn, e.cp, FALSE)
    [] e.how \in {"def", "vec3"} -> Mk(e.deg, DefaultKnots(n, e.deg), e.cp, FALSE)
    [] e.how = "auto" -> LET p == IF n >= 4 THEN 3 ELSE 1 IN Mk(p, DefaultKnots(n, p), e.cp, FALSE)
    [] e.how \in {"per", "pervec3"} -> MkPeriodic(e.deg, e.cp)

\* Euclidean coordinates of control points, as rationals
Euc(h, j) == Norm(h[j], h[4])
RECURSIVE MinR(_), MaxR(_)
MinR(s) == IF Len(s) = 1 THEN s[1] ELSE RMin(s[1], MinR(Tail(s)))
MaxR(s) == IF Len(s) = 1 THEN s[1] ELSE RMax(s[1], MaxR(Tail(s)))
TightBox(o, c) == \A j \in 1..3 :
   LET xs == [k \in 1..Len(c.cp) |-> Euc(c.cp[k], j)]
   IN NearR(o.lo[j], MinR(xs), Tol) /\ NearR(o.hi[j], MaxR(xs), Tol)
BoxHas(o, h) == \A j \in 1..3 : LeqR(o.lo[j], Euc(h, j), Tol) /\ GeqR(o.hi[j], Euc(h, j), Tol)

EvalAt(c, t) == IF c.deg = 0 THEN c.cp[Span(c, t)] ELSE HPoint(c, t)
D1Near(o, hs) == DNearAll(<<o, o>>, hs, {1})

(* join: the two curves as one, with the junction knot of multiplicity deg   *)
Rev(c) == LET a == c.kn[1]  b == c.kn[Len(c.kn)]  m == Len(c.kn)
          IN [c EXCEPT !.kn = [k \in 1..m |-> RSub(RAdd(a, b), c.kn[m + 1 - k])],
                       !.cp = [k \in 1..Len(c.cp) |-> c.cp[Len(c.cp) + 1 - k]]]
SameE(p, q) == \A j \in 1..3 : Euc(p, j) = Euc(q, j)
First(c) == c.cp[1]
Last(c) == c.cp[Len(c.cp)]
(* the joined curve visits the lattice of sample points of a, then of b       *)
Lattice(c, m) == LET u == DistinctKnots(SubSeq(c.kn, c.deg + 1, Len(c.kn) - c.deg))
                 IN {RAdd(u[k], RMul(RSub(u[k + 1], u[k]), Norm(q, m))) : k \in 1..(Len(u) - 1), q \in 0..m}

CStep(s, e) ==
  LET o == e.obs IN
  CASE e.op = "new" ->
         IF o.ok = 0 THEN Rej("construction failed") ELSE LET c == MkNew(e) IN Expect([s EXCEPT ![e.k] = c], c, o.d, "constructed curve")
    [] e.op = "state" -> IF o.ok = 0 THEN Rej("state query failed") ELSE Expect(s, s[e.k], o.d, "state of the curve")
    [] e.op = "eval" ->
         IF o.ok = 0 THEN Rej("evaluation failed")
         ELSE LET h == HPoint(s[e.k], e.t)
              IN If(\A v \in 1..Len(o.p) : NearPoint(o.p[v], h, Tol), s, "point on the curve")
    [] e.op = "insert" ->
         IF o.ok = 0 THEN Rej("knot insertion failed")
         ELSE LET c == Insert(s[e.k], e.t, e.n) IN Expect([s EXCEPT ![e.k] = c], c, o.d, "curve after knot insertion")
    [] e.op = "split" ->
         LET c == s[e.k]
             inside == RLt(DomLo(c), e.t) /\ RLt(e.t, DomHi(c))
         IN IF ~inside THEN If(Refused(e), s, "split at or outside the ends must be refused")
            ELSE IF o.ok = 0 THEN Rej("split inside the domain failed")
            ELSE LET l0 == SplitLeft(c, e.t)  r0 == SplitRight(c, e.t)
                     l == IF e.norm THEN Normalised(l0) ELSE l0
                     r == IF e.norm THEN Normalised(r0) ELSE r0
                     w1 == WhyNot(o.d1, l)  w2 == WhyNot(o.d2, r)  w3 == WhyNot(o.d, c)
                 IN IF w1 # "" THEN Rej("left part of the split: " \o w1)
                    ELSE IF w2 # "" THEN Rej("right part of the split: " \o w2)
                    ELSE IF w3 # "" THEN Rej("split modified the original: " \o w3)
                    ELSE Acc([s EXCEPT ![e.l] = l, ![e.r] = r])
    [] e.op = "decompose" ->
         IF o.ok = 0 THEN Rej("decomposition failed")
         ELSE LET c == s[e.k]  ps == BezierPieces(c)
              IN IF Len(o.ds) # Len(ps) THEN Rej("number of Bezier pieces")
                 ELSE IF \E k \in 1..Len(ps) : WhyNot(o.ds[k], [set |-> TRUE, per |-> FALSE, deg |-> c.deg, kn |-> ps[k].kn, cp |-> ps[k].cp]) # ""
                 THEN Rej("Bezier piece")
                 ELSE Expect(s, c, o.d, "curve after decompose")
    [] e.op = "deriv" ->
         IF o.ok = 0 THEN Rej("derivative failed")
         ELSE LET hs == HDerivs(s[e.k], e.t, 1) IN If(D1Near(o.p, hs), s, "first derivative")
    [] e.op = "derivl" ->
         IF o.ok = 0 THEN Rej("derivative list failed")
         ELSE LET hs == HDerivs(s[e.k], e.t, e.n - 1)
              IN If(Len(o.ps) = e.n /\ DNearAll(o.ps, hs, 0..(e.n - 1)), s, "list of derivatives")
    [] e.op = "fdm" ->
         IF o.ok = 0 THEN Rej("finite differences failed")
         ELSE LET hs == HDerivs(s[e.k], e.t, 2)
                  NearFD(p, k, tol) == \A j \in 1..3 : LET v == RatDerivs(hs, j)[k + 1] IN NearR(p[j], v, tol * (1 + Abs(v[1]) \div v[2]))
              IN If(NearFD(o.d0, 0, Tol) /\ NearFD(o.d1, 1, 200000) /\ NearFD(o.f1, 1, 200000)
                    /\ NearFD(o.d2, 2, 4000000) /\ NearFD(o.f2, 2, 4000000), s, "finite difference derivative")
    [] e.op = "dcurve" ->
         IF o.ok = 0 THEN Rej("derivative curve failed")
         ELSE LET c == s[e.k]  h == Hodograph(c)
                  hs == HDerivs(c, e.t, 1)
              IN IF o.deg # c.deg - 1 \/ ~KnotsMatch(o, h.kn) \/ o.ncp # Len(h.cp) \/ ~DomMatch(o, h) THEN Rej("shape of the derivative curve")
                 ELSE If(D1Near(o.p, hs), s, "value of the derivative curve")
    [] e.op = "copy" -> IF o.ok = 0 THEN Rej("copy failed")
         ELSE IF WhyNot(o.d1, s[e.k]) # "" THEN Rej("copied curve: " \o WhyNot(o.d1, s[e.k]))
         ELSE IF e.how # "move" /\ WhyNot(o.d, s[e.k]) # "" THEN Rej("source after copy")
         ELSE Acc([s EXCEPT ![e.l] = s[e.k], ![e.k] = IF e.how = "move" THEN NoCurve ELSE s[e.k]])
    [] e.op = "setcp" -> IF o.ok = 0 THEN Rej("set_control_points failed")
         ELSE LET c0 == s[e.k]  n == Len(e.cp)
                  kn == IF n = Len(c0.cp) THEN c0.kn ELSE IF c0.per THEN UniformKnots(n, c0.deg) ELSE DefaultKnots(n, c0.deg)
                  c == Mk(c0.deg, kn, e.cp, c0.per)
              IN Expect([s EXCEPT ![e.k] = c], c, o.d, "curve after set_control_points")
    [] e.op = "setkn" -> IF o.ok = 0 THEN Rej("set_knots failed")
         ELSE LET c == [s[e.k] EXCEPT !.kn = e.kn] IN Expect([s EXCEPT ![e.k] = c], c, o.d, "curve after set_knots")
    [] e.op = "norm" -> IF o.ok = 0 THEN Rej("normalize_knots failed")
         ELSE LET c == Normalised(s[e.k]) IN Expect([s EXCEPT ![e.k] = c], c, o.d, "curve after normalize_knots")
    [] e.op = "genkn" -> IF o.ok = 0 THEN Rej("generate_knots failed")
         ELSE LET c == [s[e.k] EXCEPT !.kn = DefaultKnots(Len(s[e.k].cp), s[e.k].deg)] IN Expect([s EXCEPT ![e.k] = c], c, o.d, "default knots")
    [] e.op = "mkper" -> IF o.ok = 0 THEN Rej("make_periodic failed")
         ELSE LET c == IF WrapsAlready(s[e.k].cp, s[e.k].deg) THEN s[e.k] ELSE MkPeriodic(s[e.k].deg, s[e.k].cp)
              IN Expect([s EXCEPT ![e.k] = c], c, o.d, "curve after make_periodic")
    [] e.op = "isper" -> IF o.ok = 0 THEN Rej("is_periodic failed") ELSE If((o.v = 1) = WrapsAlready(s[e.k].cp, s[e.k].deg), s, "is_periodic")
    [] e.op = "bbox" -> IF o.ok = 0 THEN Rej("bbox failed") ELSE If(TightBox(o, s[e.k]), s, "tight bounding box")
    [] e.op = "aabb" -> IF o.ok = 0 THEN Rej("aabb failed")
         ELSE If(\A t \in Lattice(s[e.k], 2) : BoxHas(o, HPoint(s[e.k], t)), s, "bounding box contains the curve")
    [] e.op = "cps3d" -> IF o.ok = 0 THEN Rej("get_control_points3d failed")
         ELSE If(\A v \in 1..Len(o.ps) : Len(o.ps[v]) = Len(s[e.k].cp) /\ \A q \in 1..Len(s[e.k].cp) : NearPoint(o.ps[v][q], s[e.k].cp[q], Tol), s, "dehomogenised control points")
    [] e.op = "join" ->
         LET a == s[e.k]  b == s[e.l]
             shares == \E p \in {First(a), Last(a)}, q \in {First(b), Last(b)} : SameE(p, q)
         IN IF o.ok = 0 THEN Rej("join failed")
            ELSE IF ~shares THEN If(o.v = 0, s, "joining curves without a common end must fail")
            ELSE IF o.v = 0 THEN Rej("join of curves with a common end refused")
            ELSE IF o.deg # a.deg \/ WhyNot(o.d, a) # "" \/ WhyNot(o.d1, b) # "" THEN Rej("join modified its operands or the degree")
            ELSE IF ~NearR(o.iv[1], DomLo(a), Tol) \/ ~NearR(o.iv[2], RAdd(DomHi(a), RSub(DomHi(b), DomLo(b))), Tol) THEN Rej("domain of the joined curve")
            ELSE LET es == SameE(Last(a), First(b))  ss == SameE(First(a), First(b))  ee == SameE(Last(a), Last(b))
                     a2 == IF es \/ (~ss /\ ee) THEN a ELSE Rev(a)
                     b2 == IF es \/ ss THEN b ELSE Rev(b)
                     Exp(t) == IF RLe(t, DomHi(a)) THEN HPoint(a2, t) ELSE HPoint(b2, RAdd(RSub(t, DomHi(a)), DomLo(b)))
                 IN If(Len(o.ps) = Len(e.ts) /\ \A q \in 1..Len(e.ts) : NearPoint(o.ps[q], Exp(e.ts[q]), Tol), s, "points of the joined curve")
    \* ---- knot tools (no slot state) ----
    [] e.op = "span" ->
         IF o.ok = 0 THEN Rej("find_span failed")
         ELSE LET c == [deg |-> e.deg, kn |-> e.kn, cp |-> [k \in 1..(Len(e.kn) - e.deg - 1) |-> 0]]
              IN If(o.v + 1 = Span(c, e.t), s, "knot span")
    [] e.op = "basis" ->
         IF o.ok = 0 THEN Rej("basis_funs failed")
         ELSE LET n == Len(e.kn) - e.deg - 1
                  B(j) == [deg |-> e.deg, kn |-> e.kn, cp |-> [k \in 1..n |-> IF k = j THEN <<1, 0, 0, 1, 1>> ELSE <<0, 0, 0, 1, 1>>]]
                  k0 == Span(B(1), e.t)
              IN If(/\ \A j \in 0..e.deg : LET h == HPoint(B(k0 - e.deg + j), e.t)
                                            IN NearND(o.n[j + 1], h[1], h[5], Tol) /\ o.n[j + 1][2] >= 0
                    /\ \A j \in 0..e.deg :
                          LET hs == HDerivs(B(k0 - e.deg + j), e.t, e.nd)
                          IN \A d \in 0..e.nd : NearRel(o.ds[d + 1][j + 1], Norm(hs[d + 1][1], hs[d + 1][5])),
                    s, "basis functions")
    [] e.op = "mult" -> IF o.ok = 0 THEN Rej("find_multiplicity failed") ELSE If(o.v = Mult(e.kn, e.t), s, "knot multiplicity")
    [] e.op = "uniq" -> IF o.ok = 0 THEN Rej("unique knots failed")
         ELSE LET u == DistinctKnots(e.kn)
              IN If(/\ SeqNearR(o.u, u, 1) /\ SeqNearR(o.u2, u, 1)
                    /\ Len(o.m) = Len(u) /\ \A q \in 1..Len(u) : o.m[q] = Mult(e.kn, u[q]), s, "unique knots and multiplicities")
    [] e.op = "refine" ->
         \* the refined control points describe the same curve over the refined knots
         LET c == s[e.k]
             base == IF e.list = <<>> THEN SubSeq(c.kn, c.deg + 1, Len(c.kn) - c.deg) ELSE e.list
             want == {base[q] : q \in 1..Len(base)} \cup {e.add[q] : q \in 1..Len(e.add)}
             Srt(S) == LET F[T \in SUBSET S] == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : RLe(x, y) IN <<m>> \o F[T \ {m}] IN F[S]
             Mid(q) == IF Len(q) <= 1 THEN q ELSE [z \in 1..(2 * Len(q) - 1) |-> IF z % 2 = 1 THEN q[(z + 1) \div 2] ELSE RDiv(RAdd(q[z \div 2], q[z \div 2 + 1]), R(2))]
             Dens(q, d) == IF d <= 1 THEN q ELSE IF d = 2 THEN Mid(q) ELSE Mid(Mid(q))
             full == Dens(Srt(want), e.density)
             Add[q \in 0..Len(full)] == IF q = 0 THEN c.kn ELSE InsertKnots(Add[q - 1], full[q], LET m == c.deg - Mult(c.kn, full[q]) IN IF m > 0 THEN m ELSE 0)
             kn == Add[Len(full)]
         IN IF kn = c.kn THEN If(Refused(e), s, "nothing to refine must be refused")
            ELSE IF o.ok = 0 THEN Rej("refinement failed")
            ELSE IF ~KnotsMatch(o, kn) THEN Rej("refined knots")
            ELSE If(CpMatch(o, CpOver(c, kn)), s, "refined control points")
    [] e.op = "remove" ->
         \* slot e.k holds a curve obtained from slot e.l by inserting e.t e.n times
         IF o.ok = 0 THEN Rej("knot removal failed") ELSE If(CpMatch(o, s[e.l].cp), s, "control points after knot removal")
    [] e.op = "removeany" ->
         \* removal attempted on a curve whose knot is not removable: the control points are kept
         IF o.ok = 0 THEN Rej("knot removal failed") ELSE If(CpMatch(o, s[e.k].cp), s, "a knot that is not removable must not be removed")
    [] OTHER -> Rej("unknown event " \o e.op)

TR == INSTANCE TraceRun WITH TLog <- Log, Start <- CStart, Step <- CStep
Init == TR!Init
Next == TR!Next
=============================================================================
