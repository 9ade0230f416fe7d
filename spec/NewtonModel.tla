----------------------------- MODULE NewtonModel -----------------------------
(* Newton's iteration for the foot of a point, kept inside the domain, on every *)
(* small quadratic curve: inside a certified neighbourhood each step halves the *)
(* distance to the foot, the iterate stays in the domain, and whichever of the  *)
(* library's criteria stops it, the result is near the foot.                    *)
EXTENDS Invert
CONSTANTS E, Starts
VARIABLES c, P, t, r, u, n
vars == <<c, P, t, r, u, n>>
Bez(a, b) == [deg |-> 2, kn |-> Repeat(Zero, 3) \o Repeat(One, 3), cp |-> <<<<0, 0, 0, 1, 1>>, <<a[1], a[2], 1, 1, 1>>, <<b[1], b[2], 0, 1, 1>>>>]
Grid == (-E..E) \X (-E..E)
Radii == <<<<1, 2>>, <<1, 8>>, <<1, 32>>>>
Feet == {Zero, <<1, 2>>, One}
Offs == {<<0, 0, 0>>, <<0, 0, 1>>, <<1, -1, 0>>}
Init == (\E a \in Grid : c = a) /\ P = <<>> /\ t = Zero /\ r = Zero /\ u = Zero /\ n = -1
\* P: the foot moved across the tangent by a small multiple of tangent x o
Pick == /\ n = -1
        /\ \E b \in Grid, f \in Feet, o \in Offs : \E x \in {Bez(c, b)} :
           \E D \in {HDerivs(x, f, 1)} : \E T \in {[j \in 1..3 |-> HC(D[2], j)]} :
           \E p \in {With(RCross(T, [j \in 1..3 |-> R(o[j])]), LAMBDA w : [j \in 1..3 |-> RAdd(Euclid(D[1])[j], RDiv(w[j], R(8)))])} :
           \E k \in 1..Len(Radii) :
             /\ CurveCert(x, p, f, Radii[k]) /\ (k = 1 \/ ~CurveCert(x, p, f, Radii[k - 1]))
             /\ \E s \in -Starts..Starts : /\ u' = RMin(RMax(RAdd(f, RMul(Norm(s, Starts), Radii[k])), Zero), One) /\ u' # f
             /\ c' = x /\ P' = p /\ t' = f /\ r' = Radii[k] /\ n' = 0
G(D) == RDot([j \in 1..3 |-> HC(D[2], j)], RSub3(Euclid(D[1]), P))
DG(D) == RAdd(RDot([j \in 1..3 |-> HC(D[3], j)], RSub3(Euclid(D[1]), P)), RDot([j \in 1..3 |-> HC(D[2], j)], [j \in 1..3 |-> HC(D[2], j)]))
Step == /\ n = 0
        /\ \E D \in {HDerivs(c, u, 2)} : u' = RMin(RMax(RSub(u, RDiv(G(D), DG(D))), Zero), One)
        /\ n' = n + 1 /\ UNCHANGED <<c, P, t, r>>
Next == Pick \/ Step
Spec == Init /\ [][Next]_vars
Dist == RAbs(RSub(u, t))
Near == n >= 0 => RLe(RMul(Dist, R(2 ^ n)), r) /\ RLe(Zero, u) /\ RLe(u, One)
\* derivative never vanishes where the iteration divides by it
Def == n = 0 => \E D \in {HDerivs(c, u, 2)} : RLt(Zero, DG(D))
\* criteria 2 and 3: stopping here with tolerance e means e is at least this large
Stop23 == n = 0 => \E D \in {HDerivs(c, u, 1)} : \E d \in {RSub3(Euclid(D[1]), P)} :
            /\ (P = Euclid(HPoint(c, t)) => RLe(Dist, RMul(R(256), RInf(d))))
            /\ RLe(UpR(RMul(Dist, RMul(R1(d), R1([j \in 1..3 |-> HC(D[2], j)])))), RAdd(<<1, 32>>, UpR(RMul(R(256), RAbs(G(D))))))
\* criterion 3 with a loose tolerance of its own
StopAng == n = 0 => \E D \in {HDerivs(c, u, 1)} : \E d \in {RSub3(Euclid(D[1]), P)} : \E T \in {[j \in 1..3 |-> HC(D[2], j)]} :
             \A e \in {2, 4, 6, 8} :
               RLe(UpR(RAbs(G(D))), RMul(<<1, 2 ^ e>>, RMul(Dn(RInf(T)), Dn(RInf(d))))) => RLe(Dist, RMul(<<1, 2 ^ e>>, StopAngle(c, P, t, r, e)))
\* criterion 1, as a step property
Stop1 == [][n >= 0 => \E D \in {HDerivs(c, u, 1)} : RLe(RAbs(RSub(u', t)), RMul(R(256), RMul(RAbs(RSub(u', u)), RInf([j \in 1..3 |-> HC(D[2], j)]))))]_vars
=============================================================================
