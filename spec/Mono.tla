-------------------------------- MODULE Mono --------------------------------
(* Polynomial surfaces in Bezier and monomial form over the unit square, one    *)
(* matrix of rationals per coordinate: net[c][i][j].                            *)
EXTENDS Algebra, TLC
\* Op(x) with x evaluated once
With(x, Op(_)) == CHOOSE r \in {Op(y) : y \in {x}} : TRUE
\* ---- one variable ----
RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN Zero ELSE RAdd(Head(s), RSum(Tail(s)))
Sg(k) == IF (k % 2) = 0 THEN 1 ELSE -1
\* coefficients of the polynomial with Bezier ordinates p, and back
ToMono(p) == LET n == Len(p) - 1 IN [a \in 1..(n + 1) |-> RMul(R(Choose(n, a - 1)), RSum([k \in 1..a |-> RMul(R(Sg(a - k) * Choose(a - 1, k - 1)), p[k])]))]
ToBez(m) == LET n == Len(m) - 1 IN [a \in 1..(n + 1) |-> RSum([k \in 1..a |-> RMul(Norm(Choose(a - 1, k - 1), Choose(n, k - 1)), m[k])])]
DMono(m) == IF Len(m) = 1 THEN <<Zero>> ELSE [k \in 1..(Len(m) - 1) |-> RMul(R(k), m[k + 1])]
RECURSIVE Castel(_, _)
Castel(p, t) == IF Len(p) = 1 THEN p[1] ELSE With([k \in 1..(Len(p) - 1) |-> RAdd(RMul(RSub(One, t), p[k]), RMul(t, p[k + 1]))], LAMBDA x : Castel(x, t))
RECURSIVE Corner(_, _)
\* first and last columns of the de Casteljau triangle: ordinates of the parts below and above t
Corner(p, t) == IF Len(p) = 1 THEN <<p, p>>
                ELSE With(With([k \in 1..(Len(p) - 1) |-> RAdd(RMul(RSub(One, t), p[k]), RMul(t, p[k + 1]))], LAMBDA x : Corner(x, t)),
                          LAMBDA c : <<<<p[1]>> \o c[1], c[2] \o <<p[Len(p)]>>>>)
CastelD(p, t) == IF Len(p) = 1 THEN Zero ELSE RMul(R(Len(p) - 1), Castel([k \in 1..(Len(p) - 1) |-> RSub(p[k + 1], p[k])], t))
\* ---- matrices of one coordinate ----
Tr(M) == With(M, LAMBDA x : [j \in 1..Len(x[1]) |-> [a \in 1..Len(x) |-> x[a][j]]])
OnRows(M, F(_)) == With(M, LAMBDA x : TLCEval([a \in 1..Len(x) |-> With(x[a], F)]))
OnCols(M, F(_)) == With(M, LAMBDA x : Tr(OnRows(Tr(x), F)))
OnBoth(M, F(_)) == OnCols(OnRows(M, F), F)
Map3(net, F(_)) == <<F(net[1]), F(net[2]), F(net[3])>>
MonoOf(net) == With(net, LAMBDA x : Map3(x, LAMBDA M : OnBoth(M, ToMono)))
BezOf(co) == With(co, LAMBDA x : Map3(x, LAMBDA M : OnBoth(M, ToBez)))
DU(co) == Map3(co, LAMBDA M : OnCols(M, DMono))
DV(co) == Map3(co, LAMBDA M : OnRows(M, DMono))
At(M, u, v) == With([a \in 1..Len(M) |-> Castel(M[a], v)], LAMBDA r : Castel(r, u))
AtU(M, u, v) == With([a \in 1..Len(M) |-> Castel(M[a], v)], LAMBDA r : CastelD(r, u))
AtV(M, u, v) == With([a \in 1..Len(M) |-> CastelD(M[a], v)], LAMBDA r : Castel(r, u))
\* ---- products ----
PMul2(A, B) == TLCEval([a \in 1..(Len(A) + Len(B) - 1) |-> [b \in 1..(Len(A[1]) + Len(B[1]) - 1) |->
   LET rows == {k \in 1..Len(A) : a + 1 - k \in 1..Len(B)}
       cols == {l \in 1..Len(A[1]) : b + 1 - l \in 1..Len(B[1])}
       RECURSIVE Sc(_, _) Sc(k, l) == IF l > Len(A[1]) THEN Zero ELSE RAdd(IF l \in cols THEN RMul(A[k][l], B[a + 1 - k][b + 1 - l]) ELSE Zero, Sc(k, l + 1))
       RECURSIVE Sr(_) Sr(k) == IF k > Len(A) THEN Zero ELSE RAdd(IF k \in rows THEN Sc(k, 1) ELSE Zero, Sr(k + 1))
   IN Sr(1)]])
MSub(A, B) == TLCEval([a \in 1..Len(A) |-> [b \in 1..Len(A[1]) |-> RSub(A[a][b], B[a][b])]])
PCross(p, q) == TLCEval(<<MSub(PMul2(p[2], q[3]), PMul2(p[3], q[2])), MSub(PMul2(p[3], q[1]), PMul2(p[1], q[3])), MSub(PMul2(p[1], q[2]), PMul2(p[2], q[1]))>>)
Normals(co) == With(co, LAMBDA x : With(DU(x), LAMBDA du : With(DV(x), LAMBDA dv : PCross(du, dv))))
\* quarter (lower/upper in u, lower/upper in v) of a net split in the middle
Half(M, up) == LET h == <<1, 2>> IN OnCols(M, LAMBDA p : Corner(p, h)[up])
HalfV(M, up) == LET h == <<1, 2>> IN OnRows(M, LAMBDA p : Corner(p, h)[up])
Quarter(net, a, b) == TLCEval(Map3(net, LAMBDA M : HalfV(Half(M, a), b)))
RCr(a, b) == <<RSub(RMul(a[2], b[3]), RMul(a[3], b[2])), RSub(RMul(a[3], b[1]), RMul(a[1], b[3])), RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
NormalAt(net, u, v) == With([c \in 1..3 |-> AtU(net[c], u, v)], LAMBDA a : With([c \in 1..3 |-> AtV(net[c], u, v)], LAMBDA b : RCr(a, b)))
=============================================================================
