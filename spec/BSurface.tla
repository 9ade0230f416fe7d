------------------------------ MODULE BSurface ------------------------------
(* Tensor-product B-spline surfaces in exact arithmetic.  A surface is        *)
(* [du, dv, ku, kv, cp]: cp[i][j] is the homogeneous control point of row i    *)
(* (u index) and column j (v index).                                         *)
EXTENDS BSplineObs
NU(s) == Len(s.cp)
NV(s) == Len(s.cp[1])
ColCurve(s, j) == [deg |-> s.du, kn |-> s.ku, cp |-> [i \in 1..NU(s) |-> s.cp[i][j]], per |-> FALSE, set |-> TRUE]
RowCurve(s, i) == [deg |-> s.dv, kn |-> s.kv, cp |-> s.cp[i], per |-> FALSE, set |-> TRUE]
CPoint(c, t) == IF c.deg = 0 THEN c.cp[Span(c, t)] ELSE HPoint(c, t)
IsoU(s, u) == [RowCurve(s, 1) EXCEPT !.cp = [j \in 1..NV(s) |-> CPoint(ColCurve(s, j), u)]]      \* u fixed: a curve in v
IsoV(s, v) == [ColCurve(s, 1) EXCEPT !.cp = [i \in 1..NU(s) |-> CPoint(RowCurve(s, i), v)]]
HSurf(s, u, v) == CPoint(IsoU(s, u), v)
Cols(s, F(_)) == LET cs == [j \in 1..NV(s) |-> F(ColCurve(s, j))]
                 IN [s EXCEPT !.ku = cs[1].kn, !.du = cs[1].deg, !.cp = [i \in 1..Len(cs[1].cp) |-> [j \in 1..NV(s) |-> cs[j].cp[i]]]]
Rows(s, F(_)) == LET cs == [i \in 1..NU(s) |-> F(RowCurve(s, i))]
                 IN [s EXCEPT !.kv = cs[1].kn, !.dv = cs[1].deg, !.cp = [i \in 1..NU(s) |-> cs[i].cp]]
ULo(s) == DomLo(ColCurve(s, 1))   UHi(s) == DomHi(ColCurve(s, 1))
VLo(s) == DomLo(RowCurve(s, 1))   VHi(s) == DomHi(RowCurve(s, 1))
SInsert(s, dir, t, n) == IF dir = 0 THEN Cols(s, LAMBDA c : Insert(c, t, n)) ELSE Rows(s, LAMBDA c : Insert(c, t, n))
SLeft(s, dir, t)  == IF dir = 0 THEN Cols(s, LAMBDA c : SplitLeft(c, t))  ELSE Rows(s, LAMBDA c : SplitLeft(c, t))
SRight(s, dir, t) == IF dir = 0 THEN Cols(s, LAMBDA c : SplitRight(c, t)) ELSE Rows(s, LAMBDA c : SplitRight(c, t))
SOver(s, dir, kn) == IF dir = 0 THEN Cols(s, LAMBDA c : Over(c, kn)) ELSE Rows(s, LAMBDA c : Over(c, kn))
SHodo(s, dir) == IF dir = 0 THEN Cols(s, LAMBDA c : Hodograph(c)) ELSE Rows(s, LAMBDA c : Hodograph(c))
Unitise(h) == HNorm(<<h[1], h[2], h[3], h[5], h[5]>>)
\* the derivative surface of a polynomial surface, as a surface of unit weights
SDeriv(s, dir) == LET d == SHodo(s, dir) IN [d EXCEPT !.cp = [i \in 1..Len(d.cp) |-> [j \in 1..Len(d.cp[1]) |-> Unitise(d.cp[i][j])]]]
Quad(s, u, v) == <<SLeft(SLeft(s, 0, u), 1, v), SRight(SLeft(s, 0, u), 1, v), SLeft(SRight(s, 0, u), 1, v), SRight(SRight(s, 0, u), 1, v)>>
Cells(kn, p) == LET u == DistinctKnots(kn) IN [k \in 1..(Len(u) - 1) |-> Repeat(u[k], p + 1) \o Repeat(u[k + 1], p + 1)]
\* first partial derivatives of the rational surface
Quot(h, h1, j) ==     \* ((A' w - w' A) / w^2) for coordinate j
  LET w == HC(h, 4) IN RDiv(RSub(HC(h1, j), RMul(HC(h1, 4), RDiv(HC(h, j), w))), w)
Partial(s, dir, u, v) ==
  LET h == HSurf(s, u, v)
      h1 == IF dir = 0 THEN HDeriv(IsoV(s, v), u, 1) ELSE HDeriv(IsoU(s, u), v, 1)
  IN [j \in 1..3 |-> Quot(h, h1, j)]
\* the control nets of the derivatives: k times in u, l times in v
RECURSIVE SHodoN(_, _, _)
SHodoN(s, k, l) == IF k > 0 THEN SHodoN(SHodo(s, 0), k - 1, l) ELSE IF l > 0 THEN SHodoN(SHodo(s, 1), 0, l - 1) ELSE s
RECURSIVE CHodoN(_, _)
CHodoN(c, k) == IF k = 0 THEN c ELSE CHodoN(Hodograph(c), k - 1)
\* quotient rule for a rational surface: A[k+1][l+1] are the homogeneous derivatives of order (k, l); f maps
\* the orders done so far to derivatives of coordinate j:  A(k,l) = sum over (a,b) of C(k,a) C(l,b) w(a,b) S(k-a,l-b)
RECURSIVE QuotFill(_, _, _, _)
QuotFill(A, j, todo, f) ==
  IF todo = <<>> THEN f
  ELSE LET k == todo[1][1]   l == todo[1][2]
           Lower == {<<a, b>> \in (0..k) \X (0..l) : a + b > 0}
           T(ab) == RMul(RMul(R(Binom(k, ab[1]) * Binom(l, ab[2])), HC(A[ab[1] + 1][ab[2] + 1], 4)), f[<<k - ab[1], l - ab[2]>>])
           RECURSIVE Sum(_)
           Sum(S) == IF S = {} THEN Zero ELSE LET x == CHOOSE y \in S : TRUE IN RAdd(T(x), Sum(S \ {x}))
           v == RDiv(RSub(HC(A[k + 1][l + 1], j), Sum(Lower)), HC(A[1][1], 4))
       IN QuotFill(A, j, Tail(todo), [q \in DOMAIN f \cup {<<k, l>>} |-> IF q = <<k, l>> THEN v ELSE f[q]])
Orders(d) == [q \in 1..(((d + 1) * (d + 2)) \div 2) |->      \* (0,0), (0,1), (1,0), (0,2), ...: by total order
               LET n == CHOOSE m \in 0..d : (m * (m + 1)) \div 2 < q /\ q <= ((m + 1) * (m + 2)) \div 2
                   a == q - 1 - ((n * (n + 1)) \div 2) IN <<a, n - a>>]
QuotDerivs(A, d, j) == QuotFill(A, j, Orders(d), [q \in {} |-> Zero])
RCross(a, b) == <<RSub(RMul(a[2], b[3]), RMul(a[3], b[2])), RSub(RMul(a[3], b[1]), RMul(a[1], b[3])), RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
\* a primitive integer vector along a rational vector
Primitive(r) == LET l == Lcm(Lcm(r[1][2], r[2][2]), r[3][2])
                    v == [j \in 1..3 |-> r[j][1] * (l \div r[j][2])]
                    g == Gcd(Gcd(v[1], v[2]), v[3])
                IN IF g = 0 THEN v ELSE [j \in 1..3 |-> v[j] \div g]
\* observed double in units of 1/k (k a divisor of 10^9), |value| small
Scaled(o, k) == o[2] * k + (o[3] \div (1000000000 \div k))
\* the observed vector o is the unit vector along the integer vector C (entries up to about 700)
UnitAlong(o, C, tol) ==
  /\ \A j \in 1..3 : o[j][1] = 0 /\ o[j][2] \in -2..1
  /\ LET n == [j \in 1..3 |-> Scaled(o[j], 1000000)]
         m == [j \in 1..3 |-> Scaled(o[j], 10000)]
         big == Max2(Max2(Abs(C[1]), Abs(C[2])), Abs(C[3]))
     IN /\ \A p \in {<<1, 2>>, <<2, 3>>, <<1, 3>>} : Abs(n[p[1]] * C[p[2]] - n[p[2]] * C[p[1]]) <= tol * big
        /\ m[1] * C[1] + m[2] * C[2] + m[3] * C[3] > 0
        /\ Abs(m[1] * m[1] + m[2] * m[2] + m[3] * m[3] - 100000000) <= 60000
=============================================================================
