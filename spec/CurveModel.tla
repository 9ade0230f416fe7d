------------------------------ MODULE CurveModel ------------------------------
(* Design model of curve editing: the library's algorithms (Boehm insertion,  *)
(* span search, splitting by insertion to full multiplicity, Cox-de Boor      *)
(* evaluation, hodograph) as actions and operators over exact arithmetic,     *)
(* checked against the polar-form definition of the curve.                   *)
EXTENDS CurveAlg, TLC, Json
CONSTANTS MaxDeg, MaxOps, Coords
VARIABLES c0, c, hist
vars == <<c0, c, hist>>

\* ---- the state machine ----
Params(cv) == LET a == DomLo(cv)  b == DomHi(cv) IN {RAdd(a, RMul(RSub(b, a), Norm(k, 8))) : k \in 0..8}
Inner(cv) == {t \in Params(cv) : RLt(DomLo(cv), t) /\ RLt(t, DomHi(cv)) /\ t[2] <= 8}
InitKnots(p) == {[k \in 1..(2 * p + 2) |-> R(IF k <= p + 1 THEN 0 ELSE 2)],
                 [k \in 1..(2 * p + 3) |-> R(IF k <= p + 1 THEN 0 ELSE IF k = p + 2 THEN 1 ELSE 2)],
                 [k \in 1..(3 * p + 2) |-> R(IF k <= p + 1 THEN 0 ELSE IF k <= 2 * p + 1 THEN 1 ELSE 2)]}
Pt(k, z) == <<k - 2, ((k * k) % 5) - z, z, 1 + ((k + z) % 2), 1 + (k % 2)>>
Init == /\ \E p \in 1..MaxDeg : \E kn \in InitKnots(p) : \E z \in Coords :
             c0 = [set |-> TRUE, per |-> FALSE, deg |-> p, kn |-> kn, cp |-> [k \in 1..(Len(kn) - p - 1) |-> HNorm(Pt(k, z))]]
        /\ c = c0 /\ hist = <<>>
InsertAct == \E t \in Inner(c) : \E n \in 1..(c.deg - Mult(c.kn, t)) :
               /\ c' = Boehm(c, t, n)
               /\ hist' = Append(hist, [op |-> "insert", t |-> t, n |-> n, side |-> 0])
SplitAct == \E t \in Inner(c) : \E side \in 1..2 :
               /\ c' = SplitAlg(c, t)[side]
               /\ hist' = Append(hist, [op |-> "split", t |-> t, n |-> 0, side |-> side])
Next == Len(hist) < MaxOps /\ (InsertAct \/ SplitAct) /\ UNCHANGED c0

\* ---- properties ----
TypeOK == WellFormed(c)
SamePoints == \A t \in Params(c) : HPoint(c, t) = HPoint(c0, t)               \* C02, C03
SpanOK == \A t \in Params(c) : FindSpan(c, t) + 1 = Span(c, t)                \* C05
PolarForm == \A t \in Params(c) : LET h == HPoint(c, t)  x == PointByBasis(c, t)
                                  IN \A j \in 1..4 : x[j] = Norm(h[j], h[5])   \* C01
Unity == \A t \in Params(c) : LET N == Basis(c, t) IN SumRat(N) = One /\ \A k \in 1..Len(N) : N[k][1] >= 0
InHull == \A t \in Params(c) : \A j \in 1..3 :                                \* C08: boxes of control points contain the curve
            LET h == HPoint(c, t)
                E(p) == Norm(p[j], p[4])
            IN /\ \E k \in 1..NCp(c) : RLe(E(c.cp[k]), E(h))
               /\ \E k \in 1..NCp(c) : RLe(E(h), E(c.cp[k]))
Insertion == \A t \in Inner(c) : LET m == c.deg - Mult(c.kn, t) IN m > 0 => Boehm(c, t, m) = Insert(c, t, m)
Splitting == \A t \in Inner(c) : LET s == SplitAlg(c, t) IN s[1] = SplitLeft(c, t) /\ s[2] = SplitRight(c, t)
\* the hodograph is the derivative: it integrates back to chords (exact for degree <= 2 at Bezier pieces)
Deriv == c.deg >= 1 => \A k \in 1..Len(BezierPieces(c)) :
            LET b == BezierPieces(c)[k]  h == Hodograph(b)
                lo == DomLo(b)  hi == DomHi(b)
                S(j) == RMul(Norm(1, c.deg), SumRat([q \in 1..NCp(h) |-> Norm(h.cp[q][j], h.cp[q][5])]))
            IN \A j \in 1..4 : RMul(RSub(hi, lo), S(j)) =
                 RSub(Norm(b.cp[NCp(b)][j], b.cp[NCp(b)][5]), Norm(b.cp[1][j], b.cp[1][5]))
View == <<c0, c, Len(hist)>>
\* behaviours for replay
Scn == [c0 |-> c0, hist |-> hist]
Emit == Len(hist) = MaxOps => PrintT(<<"SCN", ToJson(Scn)>>)
=============================================================================
