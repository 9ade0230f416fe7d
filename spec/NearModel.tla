------------------------------- MODULE NearModel -------------------------------
(* The region tests of the closest-point-on-triangle routine against the       *)
(* variational characterisation of the closest point, for every triangle of a  *)
(* grid around the origin; the characterisation is unique.                     *)
EXTENDS Geom, TLC
CONSTANTS Ext
VARIABLE t
C == -Ext..Ext
Pt == C \X C \X C
Init == t \in {x \in Pt \X Pt \X Pt : Nrm(x[1], x[2], x[3]) # O3}
Next == UNCHANGED t
Lin(a, u, x) == [k \in 1..3 |-> RAdd(R(a[k]), RMul(x, R(u[k])))]
Tri(a, b, c) ==
  LET ab == Sub3(b, a) ac == Sub3(c, a)
      d1 == -Dot(ab, a) d2 == -Dot(ac, a) d3 == -Dot(ab, b) d4 == -Dot(ac, b) d5 == -Dot(ab, c) d6 == -Dot(ac, c)
      vc == d1 * d4 - d3 * d2  vb == d5 * d2 - d1 * d6  va == d3 * d6 - d5 * d4
  IN IF d1 <= 0 /\ d2 <= 0 THEN Lin(a, O3, Zero)
     ELSE IF d3 >= 0 /\ d4 <= d3 THEN Lin(b, O3, Zero)
     ELSE IF vc <= 0 /\ d1 >= 0 /\ d3 <= 0 THEN Lin(a, ab, Norm(d1, d1 - d3))
     ELSE IF d6 >= 0 /\ d5 <= d6 THEN Lin(c, O3, Zero)
     ELSE IF vb <= 0 /\ d2 >= 0 /\ d6 <= 0 THEN Lin(a, ac, Norm(d2, d2 - d6))
     ELSE IF va <= 0 /\ d4 - d3 >= 0 /\ d5 - d6 >= 0 THEN Lin(b, Sub3(c, b), Norm(d4 - d3, (d4 - d3) + (d5 - d6)))
     ELSE LET n == va + vb + vc IN [k \in 1..3 |-> RAdd(R(a[k]), RAdd(RMul(Norm(vb, n), R(ab[k])), RMul(Norm(vc, n), R(ac[k]))))]
V == {t[1], t[2], t[3]}
TriOK == Tri(t[1], t[2], t[3]) = At(ClosestTo0(V))
UniqueOK == Cardinality({At(x) : x \in {y \in Feet(V) : y[3] /\ Nearest(y, V)}}) = 1
=============================================================================
