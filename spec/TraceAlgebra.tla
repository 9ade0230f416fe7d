----------------------------- MODULE TraceAlgebra -----------------------------
(* Vectors, matrices, linear systems, minimisation, quadrature, serialisation  *)
(* and segment assembly: queries on immutable inputs.  Integer components are  *)
(* in units of 1/e.den.                                                        *)
EXTENDS Algebra, TLC, TraceLog
VARIABLES sc, i, st
Start == [n |-> 0]
Rej(w) == [ok |-> FALSE, why |-> w, st |-> Start]
Acc(s) == [ok |-> TRUE, why |-> "", st |-> s]
If(c, s, w) == IF c THEN Acc(s) ELSE Rej(w)
B(x) == IF x THEN 1 ELSE 0
Tol == 20
NearN(o, v, d, tol) == Len(o) = Len(v) /\ \A k \in 1..Len(v) : NearND(o[k], v[k], d, tol)
AllN(os, v, d) == \A j \in 1..Len(os) : NearN(os[j], v, d, 1)
\* non-negative o with square n/d: checked through the fixed-point value (n/d < 10^9)
IsRoot(o, n, d) ==
  /\ o[1] = 0 /\ o[2] >= 0
  /\ LET r == o[2] * 1000 + (o[3] \div 1000000)              \* floor(1000 o)
     IN IF n \div d >= 1000 THEN (o[2] > 0 \/ n = 0) /\ LET f == o[2] IN (f = 0 \/ (f - 1) * (f - 1) <= (n \div d) + 1) /\ (f + 2) * (f + 2) >= (n \div d)
        ELSE (r - 1 <= 0 \/ (r - 1) * (r - 1) <= ((n * 1000) \div d) * 1000 + 2000) /\ (r + 2) * (r + 2) >= ((n * 1000) \div d) * 1000
\* o is close to v / sqrt(n) for the integer vector v with squared length n, given the squares os of o
IsUnit(o, os, v) ==
  LET n == VDot(v, v) IN
  \A k \in 1..Len(v) : /\ NearND(os[k], v[k] * v[k], n, Tol)
                       /\ (v[k] > 0 => GeqR(o[k], Zero, 0)) /\ (v[k] < 0 => LeqR(o[k], Zero, 0)) /\ (v[k] = 0 => NearR(o[k], Zero, 1))
Rat2(v, n, d) == [k \in 1..Len(v) |-> Norm(v[k] * n, d)]
NearRs(o, r, tol) == Len(o) = Len(r) /\ \A k \in 1..Len(r) : NearR(o[k], r[k], tol)
\* what every vector type must satisfy; D = e.den
VecWhy(e, o) ==
  LET a == e.a b == e.b D == e.den DD == D * D pr == VDot(b, b) IN
  IF ~AllN(o.add, VAdd(a, b), D) THEN "sum"
  ELSE IF ~AllN(o.sub, VSub(a, b), D) THEN "difference"
  ELSE IF ~AllN(o.sca, [k \in 1..Len(a) |-> a[k] * e.m], D) THEN "scaling"
  ELSE IF ~AllN(o.neg, VNeg(a), D) THEN "negation"
  ELSE IF ~AllN(o.mul, VMul(a, b), DD) THEN "component product"
  ELSE IF \E k \in 1..Len(o.dot) : ~NearND(o.dot[k], VDot(a, b), DD, 1) THEN "dot product"
  ELSE IF \E k \in 1..Len(o.sq) : ~NearND(o.sq[k], VDot(a, a), DD, 1) THEN "squared length"
  ELSE IF ~IsRoot(o.len, VDot(a, a), DD) THEN "length"
  ELSE LET s == VSub(a, b) IN
  IF \E k \in 1..Len(o.ds) : ~NearND(o.ds[k], VDot(s, s), DD, 1) THEN "squared distance"
  ELSE IF \E k \in 1..Len(o.dd) : ~IsRoot(o.dd[k], VDot(s, s), DD) THEN "distance"
  ELSE IF \E k \in 1..Len(o.eqn) : o.eqn[k] # 0 THEN "equality of vectors that differ by 2^-30"
  ELSE IF o.eq # <<B(a = b), 1, B(a = b)>> THEN "equality"
  ELSE IF pr # 0 /\ \E j \in 1..Len(o.prj) : ~NearRs(o.prj[j], [k \in 1..Len(b) |-> RMul(Norm(b[k], D), Norm(VDot(a, b), pr))], Tol) THEN "projection"
  ELSE ""
\* construction, component access, quotient by components, collinearity
MakeWhy(e, o, oor) ==
  LET a == e.a b == e.b D == e.den n == Len(a) IN
  IF ~AllN(o.mk, a, D) THEN "construction"
  ELSE IF ~NearN(o.all[1], [k \in 1..n |-> e.m], 1, 0) THEN "all components alike"
  ELSE IF n > 2 /\ ~NearN(o.all[2], [k \in 1..n |-> 0], 1, 0) THEN "default construction"
  ELSE IF n = 2 /\ ~NearN(o.all[2], [k \in 1..n |-> e.m], 1, 0) THEN "all components alike"
  ELSE IF o.size # n THEN "number of components"
  ELSE IF o.cidx[1] # oor THEN "index out of range"
  ELSE IF n > 2 /\ (\A k \in 1..n : b[k] # 0) /\ (Len(o.cq) # 1 \/ ~NearRs(o.cq[1], [k \in 1..n |-> Norm(a[k], b[k])], 1)) THEN "quotient by components"
  ELSE ""
\* collinear compares rounded unit vectors exactly: decided only where rounding cannot matter
Axial(a) == Cardinality({k \in 1..Len(a) : a[k] # 0}) = 1
ColOK(a, b, c) == LET s == VDot(a, b) IN
  IF Axial(a) /\ Axial(b) THEN c = B(s # 0)
  ELSE (VDot(a, a) # 0 /\ VDot(b, b) # 0 /\ (\A j \in 1..Len(a), k \in 1..Len(a) : a[j] * b[k] = a[k] * b[j])) \/ c = 0
\* ---- minimisation ----
Uni(k) == k \in {"sq", "abs", "quart", "skew", "step"}
MinWhy(e, o) ==
  LET lo == e.lo hi == e.hi IN
  IF RLt(hi, lo) \/ e.bad = 1 THEN (IF o.ex[1] = "invalid_argument" /\ o.n = 0 THEN "" ELSE "improper bounds accepted")
  ELSE IF o.ex[1] # "" THEN "minimisation failed"
  ELSE IF o.inb = 0 THEN "evaluated outside the bounds"
  ELSE IF o.n > e.max THEN "more evaluations than allowed"
  ELSE IF o.nfev # o.n THEN "number of evaluations"
  ELSE IF o.at = 0 THEN "the result was never evaluated"
  ELSE IF o.xin = 0 THEN "result outside the bounds"
  ELSE IF o.nan = 1 THEN (IF o.succ = 0 THEN "" ELSE "success although a value is NaN")
  ELSE IF o.fok = 0 THEN "reported value is not the function's value"
  ELSE IF o.best = 0 THEN "a smaller value was seen"
  ELSE IF o.succ # B(o.st = 0) THEN "status"
  ELSE LET tol == 2 * ((e.xtol \div 3) + 16 * (Abs(o.x[2]) + 1)) + 4      \* 10^-9
           conv == LeqR(o.gl, Zero, tol) /\ LeqR(o.gh, Zero, tol)
       IN IF o.succ = 1 /\ ~conv THEN "success without convergence"
          ELSE IF o.succ = 0 /\ o.n < e.max THEN "gave up early"
          ELSE IF o.succ = 1 /\ Uni(e.k)
               THEN LET c == RMax(lo, RMin(hi, e.c)) IN IF NearR(o.x, c, tol) THEN "" ELSE "not the minimiser"
               ELSE ""
\* ---- serialisation ----
NearL(o, r) == Len(o) = Len(r) /\ \A k \in 1..Len(r) : NearR(o[k], r[k], 1)
NearLL(o, r) == Len(o) = Len(r) /\ \A k \in 1..Len(r) : NearL(o[k], r[k])
ValOK(o, v) ==
  \/ v[1] = "any"
  \/ o[1] = v[1]
     /\ CASE v[1] \in {"int", "bool"} -> o[2] = v[2]
          [] v[1] = "dbl" -> NearR(o[2], v[2], 1)
          [] v[1] \in {"vd", "v4"} -> NearL(o[2], v[2])
          [] v[1] = "vv4" -> NearLL(o[2], v[2])
          [] v[1] = "curve" -> o[2] = v[2] /\ o[3] = v[3] /\ NearL(o[4], v[4]) /\ NearLL(o[5], v[5])
          [] OTHER -> FALSE
\* ---- arc length of a planar curve whose speed is u(t)^2 + v(t)^2 ----
RSum2(c, d) == LET n == Len(c) IN [k \in 1..(2 * n - 1) |->
   LET S == {j \in 1..n : k + 1 - j \in 1..n}
       RECURSIVE Sm(_) Sm(j) == IF j > n THEN Zero ELSE RAdd(IF j \in S THEN RMul(c[j], d[k + 1 - j]) ELSE Zero, Sm(j + 1))
   IN Sm(1)]
XStep(s, e) ==
  LET o == e.obs IN
  IF o.ok = 0 THEN Rej(e.op \o " failed")
  ELSE
  CASE e.op \in {"v2", "v3", "v4"} ->
        LET w == VecWhy(e, o) D == e.den a == e.a b == e.b IN
        IF w # "" THEN Rej(w \o " of " \o e.op)
        ELSE IF MakeWhy(e, o, IF e.op = "v2" THEN "out_of_range" ELSE "invalid_argument") # "" THEN Rej(MakeWhy(e, o, IF e.op = "v2" THEN "out_of_range" ELSE "invalid_argument") \o " of " \o e.op)
        ELSE IF e.op = "v3" THEN
             IF ~AllN(o.crs, VCross(a, b), D * D) \/ ~NearN(SubSeq(o.c4, 1, 3), VCross(a, b), D * D, 1) \/ ~NearR(o.c4[4], One, 0) THEN Rej("cross product of v3")
             ELSE IF VDot(a, a) # 0 /\ ~(\A j \in 1..3 : IsUnit(o.unit[j], o.usq, a)) THEN Rej("unit of v3")
             ELSE IF VDot(a, a) = 0 /\ ~AllN(o.unit, a, 1) THEN Rej("unit of the zero vector")
             ELSE IF e.m # 0 /\ (Len(o.div) # 2 \/ \E j \in 1..2 : ~NearRs(o.div[j], [k \in 1..3 |-> Norm(a[k], D * e.m)], 1)) THEN Rej("quotient of v3")
             ELSE IF ~ColOK(a, b, o.col) THEN Rej("collinearity of v3")
             ELSE IF o.eq2 # <<B(a[1] = b[1] /\ a[2] = b[2]), 1>> THEN Rej("v3 compared with v2")
             ELSE If(AllN(o.cmp, a, D) /\ NearN(o.set, b, D, 1) /\ o.idx[1] = "invalid_argument", s, "components of v3")
        ELSE IF e.op = "v2" THEN
             IF ~NearND(o.crs, a[1] * b[2] - a[2] * b[1], D * D, 1) THEN Rej("cross product of v2")
             ELSE IF VDot(a, a) = 0 /\ o.unit[1] # "invalid_argument" THEN Rej("unit of the zero vector")
             ELSE IF VDot(a, a) # 0 /\ ~(o.unit[1] = "" /\ \A j \in 1..2 : IsUnit(o.unit[2][j], o.usq[2], a)) THEN Rej("unit of v2")
             ELSE IF VDot(b, b) # 0 /\ ~NearND(o.prn, VDot(a, b), VDot(b, b), 1) THEN Rej("projection coefficient")
             ELSE IF e.m = 0 /\ o.div[1] # "invalid_argument" THEN Rej("division by zero accepted")
             ELSE IF e.m # 0 /\ ~(o.div[1] = "" /\ NearRs(o.div[2][1], [k \in 1..2 |-> Norm(a[k], D * e.m)], 1)) THEN Rej("quotient of v2")
             ELSE IF VDot(a, a) # 0 /\ VDot(b, b) # 0 /\ (o.col[1] # "" \/ ~ColOK(a, b, o.col[2])) THEN Rej("collinearity of v2")
             ELSE If(NearN(o.cmp, a, D, 1) /\ o.idx[1] = "out_of_range", s, "components of v2")
        ELSE
             IF e.m # 0 /\ (Len(o.div) # 1 \/ ~NearRs(o.div[1], [k \in 1..4 |-> Norm(a[k], D * e.m)], 1)) THEN Rej("quotient of v4")
             ELSE IF ~AllN([j \in 1..2 |-> SubSeq(o.c1[j], 1, 3)], VCross(a, b), D * D) \/ \E j \in 1..2 : ~NearR(o.c1[j][4], One, 0) THEN Rej("cross product of v4")
             ELSE IF a[4] # 0 /\ LET eu == [k \in 1..3 |-> Norm(a[k], a[4])]
                                     cx == LET c == VCross(SubSeq(a, 1, 3), SubSeq(b, 1, 3)) IN [k \in 1..3 |-> Norm(c[k], a[4] * D)]
                                 IN \/ \E j \in 1..2 : ~NearRs(o.hom[j], eu, 1) \/ ~NearRs(o.ch[j], cx, 1)
                                    \/ ~NearRs(SubSeq(o.rt[1], 1, 3), eu, 1) \/ ~NearR(o.rt[1][4], One, 0) \/ ~NearRs(o.rt[2], eu, 1) THEN Rej("homogeneous conversion")
             ELSE If(NearN(o.cmp, a, D, 1) /\ o.idx[1] = "invalid_argument", s, "components of v4")
    [] e.op = "dots" -> If(Len(o.r) = Len(e.x) /\ \A k \in 1..Len(e.x) : NearR(o.r[k], R(VDot(e.v, <<e.x[k], e.y[k], e.z[k]>>)), 0), s, "dot products with a list")
    [] e.op = "sph" ->
        LET a == e.a D == e.den n == VDot(a, a)
            \* polar angle in [0, pi], azimuth in (-pi, pi], both given in 10^-9
            ang(t, p) == GeqR(t, Zero, 1) /\ LeqR(t, <<355, 113>>, 300) /\ LeqR(p, <<355, 113>>, 300) /\ GeqR(p, <<-355, 113>>, 300)
        IN IF ~NearRs(o.back, [k \in 1..3 |-> Norm(a[k], D)], Tol + 10 * n) THEN Rej("spherical round trip")
           ELSE IF ~NearND(o.rsq, n, D * D, Tol + n) THEN Rej("spherical radius")
           ELSE IF ~ang(o.rtp[2], o.rtp[3]) \/ ~ang(o.tp[1], o.tp[2]) THEN Rej("angle range")
           ELSE IF n # 0 /\ ~IsUnit(o.dir, o.dsq, a) THEN Rej("direction from angles")
           ELSE If(o.n = 4 /\ \A j \in 1..3 : LET z == IF j = 3 THEN o.t2 ELSE o.tp IN NearObs(o.tl[j][1], z[1], 0) /\ NearObs(o.tl[j][2], z[2], 0), s, "angles of a list")
    [] e.op = "m2" ->
        LET A == e.A C == e.B v == e.v d == Det(A)
            near(o2, M) == \A r \in 1..2 : NearN(o2[r], M[r], 1, 0)
        IN IF \E j \in 1..4 : ~near(o.ctor[j], A) THEN Rej("2x2 construction")
           ELSE IF ~NearR(o.det, R(d), 0) THEN Rej("2x2 determinant")
           ELSE IF ~near(o.tr, MTrans(A)) \/ ~near(o.mul, MMul(A, C)) THEN Rej("2x2 product or transpose")
           ELSE IF ~NearN(o.mv, <<A[1][1] * v[1] + A[1][2] * v[2], A[2][1] * v[1] + A[2][2] * v[2]>>, 1, 0) THEN Rej("2x2 times vector")
           ELSE IF ~near(o.eye, <<<<1, 0>>, <<0, 1>>>>) \/ ~near(o.diag, <<<<v[1], 0>>, <<0, v[2]>>>>) THEN Rej("2x2 identity or diagonal")
           ELSE IF o.s # B(d # 0) THEN Rej("2x2 solvability")
           ELSE IF d # 0 /\ ~NearRs(o.x, Cramer(A, v), Tol) THEN Rej("2x2 solution")
           ELSE IF d = 0 THEN If(o.inv[1] = "runtime_error", s, "singular 2x2 inverted")
           ELSE If(o.inv[1] = "" /\ \A r \in 1..2 : NearRs(o.inv[2][r], [c \in 1..2 |-> InvAt(A, r, c)], Tol), s, "2x2 inverse")
    [] e.op = "mm" ->
        LET A == e.A C == e.B IN
        IF o.r # <<NRows(A), NCols(A)>> THEN Rej("matrix size")
        ELSE IF ~(Len(o.t) = NCols(A) /\ \A r \in 1..NCols(A) : NearN(o.t[r], MTrans(A)[r], 1, 0)) THEN Rej("transpose")
        ELSE IF NCols(A) # NRows(C) THEN If(o.p[1] = "runtime_error", s, "product of non-conforming matrices")
        ELSE If(o.p[1] = "" /\ Len(o.p[2]) = NRows(A) /\ \A r \in 1..NRows(A) : NearN(o.p[2][r], MMul(A, C)[r], 1, 0), s, "matrix product")
    [] e.op = "minv" ->
        LET A == e.A IN
        IF ~(\A r \in 1..Len(A) : NearN(o.a[r], A[r], 1, 0)) THEN Rej("inversion changed its operand")
        ELSE IF NRows(A) # NCols(A) THEN If(o.i[1] = "runtime_error", s, "inverse of a non-square matrix")
        ELSE IF Det(A) = 0 THEN If(o.i[1] = "runtime_error", s, "singular matrix inverted")
        ELSE If(o.i[1] = "" /\ \A r \in 1..Len(A) : NearRs(o.i[2][r], [c \in 1..Len(A) |-> InvAt(A, r, c)], Tol), s, "inverse")
    [] e.op = "binom" -> If(o.b = Choose(e.n, e.k), s, "binomial coefficient")
    [] e.op = "col" ->
        IF e.c >= NCols(e.A) THEN If(o.c[1] = "out_of_range", s, "column out of range accepted")
        ELSE If(o.c[1] = "" /\ NearN(o.c[2], [r \in 1..NRows(e.A) |-> e.A[r][e.c + 1]], 1, 0), s, "column")
    [] e.op = "chol" ->
        IF ~Symmetric(e.A) THEN Rej("BAD SCENARIO: not symmetric")
        ELSE IF "l0" \in DOMAIN e /\ ~Exactly(e.A, e.l0) THEN Rej("BAD SCENARIO: not the factor")
        ELSE IF "l0" \in DOMAIN e THEN If(o.r = 0 /\ o.s = 0, s, "a singular matrix counts as positive definite")
        ELSE IF Borderline(e.A) THEN Acc(s)
        ELSE IF o.r # B(PosDef(e.A)) \/ o.s # o.r THEN Rej("positive definiteness")
        ELSE IF o.r = 0 THEN Acc(s)
        ELSE IF \E r \in 1..Len(e.A) : ~(GeqR(o.L[r][r], Zero, 0) /\ \A c \in 1..Len(e.A) : c > r => NearR(o.L[r][c], Zero, 0)) THEN Rej("factor is not lower triangular")
        ELSE If(NearRs(o.x, Cramer(e.A, e.b), Tol), s, "solution of the linear system")
    [] e.op = "grad" ->             \* f = 1/2 u'Au + b u + sum q u^4, u = p - m
        LET n == Len(e.b) u == [k \in 1..n |-> e.p[k] - e.m[k]] IN
        IF ~Symmetric(e.A) THEN Rej("BAD SCENARIO: not symmetric")
        ELSE IF \E k \in 1..n : ~NearR(o.g[k], R(VDot(e.A[k], u) + e.b[k] + 4 * e.q[k] * u[k] * u[k] * u[k]), e.tg) THEN Rej("gradient")
        ELSE If(\A k, l \in 1..n : NearR(o.H[k][l], R(e.A[k][l] + (IF k = l THEN 12 * e.q[k] * u[k] * u[k] ELSE 0)), e.th), s, "Hessian")
    [] e.op = "newton" ->           \* strictly convex with the minimiser given by A (x - m) = -b when q = 0, m when b = 0
        IF ~Symmetric(e.A) \/ ~PosDef(e.A) \/ \E k \in 1..Len(e.b) : e.q[k] < 0 \/ (e.q[k] # 0 /\ \E l \in 1..Len(e.b) : e.b[l] # 0) THEN Rej("BAD SCENARIO: not strictly convex")
        ELSE LET x == Cramer(e.A, VNeg(e.b)) IN If(NearRs(o.x, [k \in 1..Len(e.b) |-> RAdd(R(e.m[k]), x[k])], 1000000), s, "minimiser of a convex function")
    [] e.op = "min" -> LET w == MinWhy(e, o) IN IF w = "" THEN Acc(s) ELSE Rej(w)
    [] e.op = "quad" ->             \* e.c coefficients, degree at most 5: the error estimate is the error
        LET I == PInt(e.c, e.a, e.b) IN
        IF Len(e.c) > 6 THEN Rej("BAD SCENARIO: degree")
        ELSE IF o.inb = 0 THEN Rej("integrand evaluated outside the interval")
        ELSE IF Len(e.c) <= 4 THEN If(NearR(o.r, I, Tol) /\ NearR(o.r2, RNeg(I), Tol) /\ NearR(o.e, Zero, Tol), s, "integral of a cubic")
        ELSE If(NearR(o.rd, I, 10 + Tol) /\ NearR(o.r, I, e.tol + Tol) /\ NearR(o.r2, RNeg(I), e.tol + Tol) /\ LeqR(o.e, Zero, e.tol + Tol) /\ GeqR(o.e, Zero, 0), s, "integral to tolerance")
    [] e.op = "kink" ->             \* c0 + c1 |x - m| on [a, a + h], m = a + h * n / 2^k: no halving stops before the kink is a node (KinkModel), then all is exact
        LET W == 2 ^ e.kk  l == RMul(R(e.h), Norm(e.n, W))  r == RMul(R(e.h), Norm(W - e.n, W))
            I == RAdd(R(e.c0 * e.h), RMul(Norm(e.c1, 2), RAdd(RMul(l, l), RMul(r, r)))) IN
        IF e.c1 < 1 \/ e.h < 1 \/ (90 * e.tol * W) \div 1000000 >= 1000 * e.h * e.h * e.c1 THEN Rej("BAD SCENARIO: tolerance too large for the kink")
        ELSE IF o.inb = 0 THEN Rej("integrand evaluated outside the interval")
        ELSE If(NearR(o.r, I, Tol) /\ NearR(o.r2, RNeg(I), Tol) /\ LeqR(o.e, Zero, e.tol + Tol) /\ GeqR(o.e, Zero, 0), s, "integral of a function with a kink")
    [] e.op = "root" -> If(NearR(o.t, e.t, e.tol), s, "upper limit for a given integral")
    [] e.op = "len" ->              \* speed u^2 + v^2 (e.u, e.v coefficient sequences): checked against the control points
        LET sp == LET a == RSum2(e.u, e.u) b == RSum2(e.v, e.v) IN [k \in 1..Len(a) |-> RAdd(a[k], b[k])]
            n == Len(e.ts) - 1
            L(a, b) == PInt(sp, a, b)
            dx == LET a == RSum2(e.u, e.u) b == RSum2(e.v, e.v) IN [k \in 1..Len(a) |-> RSub(a[k], b[k])]
            dy == LET a == RSum2(e.u, e.v) IN [k \in 1..Len(a) |-> RAdd(a[k], a[k])]
            d == Len(dx)            \* degree of the curve
            bez(c, t) == LET RECURSIVE dc(_) dc(w) == IF Len(w) = 1 THEN w[1] ELSE dc([k \in 1..(Len(w) - 1) |-> RAdd(RMul(RSub(One, t), w[k]), RMul(t, w[k + 1]))]) IN dc(c)
            tt(k) == RMul(R(k), Norm(e.iv[2], d))
            X(j, k) == bez([l \in 1..Len(e.cp) |-> e.cp[l][j]], Norm(k, d))
        IN IF \E k \in 1..d : \/ RSub(X(e.ax[1], k), X(e.ax[1], 0)) # PInt(dx, Zero, tt(k)) \/ RSub(X(e.ax[2], k), X(e.ax[2], 0)) # PInt(dy, Zero, tt(k))
                              \/ X(6 - e.ax[1] - e.ax[2], k) # X(6 - e.ax[1] - e.ax[2], 0) THEN Rej("BAD SCENARIO: not the curve with that speed")
           ELSE IF \E k \in 1..n : ~NearR(o.r[k][1], L(e.ts[k], e.ts[k + 1]), e.tol + Tol) THEN Rej("arc length")
           ELSE IF \E k \in 1..n : ~NearR(o.r[k][2], RNeg(L(e.ts[k], e.ts[k + 1])), e.tol + Tol) THEN Rej("arc length with reversed limits")
           ELSE IF \E k \in 1..n : ~NearR(o.r[k][3], L(Zero, e.ts[k]), 1000000 + Tol) THEN Rej("arc length from the start")
           ELSE If(NearR(o.all[1], L(Zero, R(e.iv[2])), 1000000) /\ NearR(o.all[2], L(Zero, R(e.iv[2])), 1000000) /\ NearR(o.all[3], L(Zero, R(e.iv[2])), e.tol + Tol), s, "length of the whole curve")
    [] e.op = "lat" ->              \* the parameter with a given length from t0
        If(NearR(o.t, e.t, e.tol) /\ NearR(o.l, e.l, e.tol), s, "parameter at a given length")
    [] e.op = "line" ->             \* control points in order on a line: unit e.unit length per step, length is the distance
        LET n == Len(e.ts) - 1 IN
        IF \E k \in 1..n : ~NearR(o.r[k][1], RMul(e.len, RSub(e.ts[k + 1], e.ts[k])), e.tol + Tol) THEN Rej("length of a straight curve")
        ELSE If(NearR(o.all[3], RMul(e.len, R(e.iv[2])), e.tol + Tol), s, "length of a whole straight curve")
    [] e.op = "steps" ->            \* unit speed e.sp[k] on the k-th unit of the domain: a polyline with those edge lengths
        LET n == Len(e.ts) - 1
            \* the length up to t
            W(t) == LET f == t[1] \div t[2]
                        RECURSIVE Up(_) Up(k) == IF k = 0 THEN 0 ELSE e.sp[k] + Up(k - 1)
                    IN IF f = Len(e.sp) THEN R(Up(f)) ELSE RAdd(R(Up(f)), RMul(R(e.sp[f + 1]), RSub(t, R(f))))
            ok(ob, a, b) == NearR(ob, RSub(W(b), W(a)), 20 * e.tol * (Len(e.sp) + 1) + 20000)
            sq(k) == SumI([j \in 1..3 |-> (e.cp[k + 1][j] - e.cp[k][j]) * (e.cp[k + 1][j] - e.cp[k][j])])
        IN IF \E k \in 1..Len(e.sp) : sq(k) # e.sp[k] * e.sp[k] THEN Rej("BAD SCENARIO: edge lengths")
           ELSE IF \E k \in 1..n : ~ok(o.r[k][1], e.ts[k], e.ts[k + 1]) \/ ~ok(o.r[k][2], e.ts[k + 1], e.ts[k]) THEN Rej("length of a polyline")
           ELSE If(ok(o.all[3], Zero, R(Len(e.sp))), s, "length of a whole polyline")
    [] e.op = "circle" ->           \* a rational circle of radius e.r in e.n quarters: the parts add up to the arc
        LET RECURSIVE Sm(_, _) Sm(k, c) == IF k = 0 THEN <<0, 0>> ELSE LET p == Sm(k - 1, c) f == p[2] + o.r[k][c][3] IN <<p[1] + o.r[k][c][2] + (f \div 1000000000), f % 1000000000>>
            n == Len(o.r)
            arc(v) == NearR(<<0, v[1], v[2]>>, <<e.r * e.n * 355, 226>>, 300 * e.r * e.n + (n + 4) * (100 * e.tol + 3000))      \* 355/113 - pi < 3e-7
        IN If(/\ \A k \in 1..n : o.r[k][1][1] = 0 /\ o.r[k][2][1] = 0
              /\ arc(Sm(n, 1)) /\ NearR(<<0, Sm(n, 2)[1], Sm(n, 2)[2]>>, <<-e.r * e.n * 355, 226>>, 300 * e.r * e.n + (n + 4) * (100 * e.tol + 3000))
              /\ arc(<<o.all[3][2], o.all[3][3]>>), s, "length of a circular arc")
    [] e.op = "ser" ->
        IF o.used = 0 THEN Rej("bytes consumed")
        ELSE IF o.same = 0 THEN Rej("value changed by a round trip")
        ELSE IF Len(o.v) # Len(e.v) THEN Rej("number of values")
        ELSE If(\A k \in 1..Len(e.v) : ValOK(o.v[k], e.v[k]), s, "value read back")
    [] e.op \in {"list", "file"} ->
        IF o.same = 0 \/ Len(o.v) # Len(e.v) THEN Rej("curves changed by a round trip")
        ELSE If(\A k \in 1..Len(e.v) : ValOK(o.v[k], e.v[k]), s, "curve read back")
    [] e.op = "nofile" -> If(o.r[1] = "runtime_error" /\ o.w = <<"", 0>>, s, "missing file")
    [] e.op = "chain" -> If(Chains(e.g, o.b), s, "segments assembled into polylines")
    [] OTHER -> Rej("BAD SCENARIO: op")
TR == INSTANCE TraceRun WITH TLog <- Log, Start <- Start, Step <- XStep
Init == TR!Init
Next == TR!Next
=============================================================================
