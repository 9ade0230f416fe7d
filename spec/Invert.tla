------------------------------- MODULE Invert -------------------------------
(* Where Newton iterations for the foot of a point must converge: certified    *)
(* neighbourhoods of a known foot on polynomial B-spline curves and surfaces.  *)
(* Bounds use sums of absolute coordinates for upper and largest coordinates   *)
(* for lower estimates of Euclidean lengths.                                   *)
EXTENDS BSurface, TLC
With(x, Op(_)) == CHOOSE r \in {Op(y) : y \in {x}} : TRUE
CeilR(r) == -((-r[1]) \div r[2])
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
\* |x| + |y| + |z| of an affine vector, rounded up; of all control vectors of a curve or surface
Up1(h) == CeilR(Norm(Abs(h[1]) + Abs(h[2]) + Abs(h[3]), h[5]))
BoundC(c) == MaxOf({Up1(c.cp[k]) : k \in 1..Len(c.cp)})
BoundS(s) == MaxOf({Up1(s.cp[a][b]) : a \in 1..Len(s.cp), b \in 1..Len(s.cp[1])})
RDot(a, b) == RAdd(RAdd(RMul(a[1], b[1]), RMul(a[2], b[2])), RMul(a[3], b[3]))
RSub3(a, b) == [k \in 1..3 |-> RSub(a[k], b[k])]
R1(a) == RAdd(RAdd(RAbs(a[1]), RAbs(a[2])), RAbs(a[3]))
RInf(a) == RMax(RMax(RAbs(a[1]), RAbs(a[2])), RAbs(a[3]))
\* rounded down or up to multiples of 1/64 (to the next but one for large denominators)
Dn(r) == LET f == r[1] % r[2] IN Norm((r[1] \div r[2]) * 64 + (IF r[2] < 16777216 THEN (64 * f) \div r[2] ELSE f \div (r[2] \div 64 + 1)), 64)
UpR(r) == RNeg(Dn(RNeg(r)))
Sq3(v, Round(_)) == RAdd(RAdd(RMul(Round(RAbs(v[1])), Round(RAbs(v[1]))), RMul(Round(RAbs(v[2])), Round(RAbs(v[2])))), RMul(Round(RAbs(v[3])), Round(RAbs(v[3]))))
Euclid(h) == [j \in 1..3 |-> Norm(h[j], h[4])]
UnitW(cp) == \A k \in 1..Len(cp) : cp[k][4] = cp[k][5]
\* no interior knot inside or near [t - r, t + r]
Clear(kn, lo, hi, t, r) == \A k \in 1..Len(kn) : (RLt(lo, kn[k]) /\ RLt(kn[k], hi)) => RLt(RAdd(r, <<1, 4096>>), RAbs(RSub(kn[k], t)))
Hodo(c) == IF c.deg = 0 THEN c ELSE Hodograph(c)
(* P has its foot at C(t); from any start within r of t the iteration           *)
(*   u - g(u) / g'(u),  g = C' . (C - P)                                        *)
(* at least halves the distance to t, and stopping by any of the library's      *)
(* criteria with tolerance e leaves a distance of at most 256 e.                *)
(* The certified estimates: M1 >= |C'|, W >= |P - C(t)|, off >= |C - P|, g' >= gmin, g'' <= g2 within r of t. *)
CurveEst(c, P, t, r) ==
  With(HDerivs(c, t, 1), LAMBDA D :
     LET w == RSub3(P, Euclid(D[1]))
         T1 == [j \in 1..3 |-> HC(D[2], j)]
     IN With(<<Hodograph(c)>>, LAMBDA H :
           LET M1 == BoundC(H[1])
               H2 == IF c.deg > 1 THEN Hodograph(H[1]) ELSE H[1]
               M2 == IF c.deg > 1 THEN BoundC(H2) ELSE 0
               M3 == IF c.deg > 2 THEN BoundC(Hodograph(H2)) ELSE 0
               W == R(CeilR(R1(w)))
               off == RAdd(W, UpR(RMul(R(M1), r)))
               a == RSub(Dn(RInf(T1)), UpR(RMul(R(M2), r)))
           IN [perp |-> RDot(w, T1) = Zero, M1 |-> M1, w |-> R1(w), off |-> off, a |-> a,
               gmin |-> RSub(RMul(a, a), RMul(R(M2), off)), g2 |-> RAdd(RMul(R(M3), off), R(3 * M2 * M1))]))
CurveCert(c, P, t, r) ==
  /\ UnitW(c.cp) /\ RLe(DomLo(c), t) /\ RLe(t, DomHi(c)) /\ Clear(c.kn, DomLo(c), DomHi(c), t, r)
  /\ With(CurveEst(c, P, t, r), LAMBDA E :
     /\ E.perp /\ RLe(<<1, 64>>, E.a) /\ RLt(Zero, E.gmin)
     /\ RLe(UpR(RMul(R(2), RMul(E.g2, r))), E.gmin)
     /\ RLe(RMul(R(E.M1), E.off), RMul(R(100), E.gmin)))
(* Stopping because the angle is within 2^-e of a right angle leaves a distance *)
(* d with d gmin <= 2^-e M1 (w + M1 d): at most 2^-e StopAngle(..), if defined. *)
StopAngle(c, P, t, r, e) ==
  With(CurveEst(c, P, t, r), LAMBDA E :
    With(RSub(Dn(E.gmin), UpR(Norm(E.M1 * E.M1, 2 ^ e))), LAMBDA g :
      IF RLt(Zero, g) THEN RMin(R(256), UpR(RDiv(UpR(RMul(R(E.M1), UpR(E.w))), g))) ELSE R(256)))
(* The same for the iteration with the first derivatives only, for points on    *)
(* the surface, or anywhere when the second derivatives vanish.                 *)
SurfCert(s, P, u, v, r, sg) ==
  /\ \A a \in 1..Len(s.cp) : UnitW(s.cp[a])
  /\ RLe(ULo(s), u) /\ RLe(u, UHi(s)) /\ RLe(VLo(s), v) /\ RLe(v, VHi(s))
  /\ Clear(s.ku, ULo(s), UHi(s), u, r) /\ Clear(s.kv, VLo(s), VHi(s), v, r)
  /\ RLe(<<1, 16>>, sg)
  /\ With(<<Euclid(HSurf(s, u, v)), Partial(s, 0, u, v), Partial(s, 1, u, v), SDeriv(s, 0), SDeriv(s, 1)>>, LAMBDA D :
     LET w == RSub3(P, D[1])
         bb(x, p, d) == IF p = 0 THEN 0 ELSE BoundS(SDeriv(x, d))
         B == bb(D[4], D[4].du, 0) + 2 * bb(D[4], D[4].dv, 1) + bb(D[5], D[5].dv, 1)
     IN With(RCross(D[2], D[3]), LAMBDA n :
        /\ RDot(w, D[2]) = Zero /\ RDot(w, D[3]) = Zero
        /\ RLe(RMul(RMul(sg, sg), RAdd(Sq3(D[2], UpR), Sq3(D[3], UpR))), Sq3(n, Dn))
        /\ (w = <<Zero, Zero, Zero>> \/ B = 0)
        /\ RLe(RMul(R(4 * B), r), sg)
        /\ RLe(RMul(R1(w), R(BoundS(D[4]) + BoundS(D[5]))), RMul(R(32), RMul(sg, sg)))))
=============================================================================
