------------------------------ MODULE PeriodModel ------------------------------
(* Design model of periodic curves: any closed polygon, made periodic any number *)
(* of times and turned to start at another corner.  The wrapped curve with       *)
(* uniform knots closes with all derivatives below the degree, does not change   *)
(* when it is made periodic again, and turning the polygon only shifts the       *)
(* parameter (so no corner of the polygon is special: it is the periodic         *)
(* uniform B-spline).                                                            *)
EXTENDS CurveAlg, TLC
CONSTANTS Degrees, MaxN, Coords, Weights
VARIABLES deg, poly, cp, ops
vars == <<deg, poly, cp, ops>>
Per(p, c) == IF WrapsAlready(c, p) THEN c ELSE Wrap(c, p)
Cv(p, c) == [set |-> TRUE, per |-> TRUE, deg |-> p, kn |-> UniformKnots(Len(c), p), cp |-> c]
N == Len(poly)
C == Cv(deg, cp)
Turn(q, k) == [j \in 1..Len(q) |-> q[((j - 1 + k) % Len(q)) + 1]]
Init == /\ deg \in Degrees
        /\ \E n \in (deg + 1)..MaxN : \E w \in Weights : poly \in {[j \in 1..n |-> HNorm(<<f[j] * (IF j = 1 THEN w ELSE 1), j * (IF j = 1 THEN w ELSE 1), 0, IF j = 1 THEN w ELSE 1, 1>>)] : f \in [1..n -> Coords]}
        /\ cp = Per(deg, poly) /\ ops = 0
Again == /\ ops = 0 /\ ops' = 1 /\ cp' = Per(deg, cp) /\ UNCHANGED <<deg, poly>>
Rotate == /\ ops < 2 /\ ops' = 2 /\ \E k \in 1..(N - 1) : /\ poly' = Turn(poly, k) /\ cp' = Per(deg, Turn(poly, k))
          /\ UNCHANGED deg
Next == Again \/ Rotate
Params(c) == {RMul(RSub(DomHi(c), DomLo(c)), Norm(k, 2 * N)) : k \in 0..(2 * N)}
Domain == DomLo(C) = Zero /\ DomHi(C) = R(N) /\ WellFormed(C)
Closed == \A k \in 0..(deg - 1) : HDeriv(C, Zero, k) = HDeriv(C, R(N), k)
Idem == Per(deg, cp) = cp
Shift == \E q \in {Cv(deg, Per(deg, Turn(poly, 1)))} :
           \A t \in Params(C) : RLe(One, t) => HPoint(q, RSub(t, One)) = HPoint(C, t)
Weighted == \A t \in Params(C) : HPoint(C, t)[4] > 0
=============================================================================
