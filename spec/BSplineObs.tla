------------------------------ MODULE BSplineObs ------------------------------
(* Comparing observed curves and points with exact ones. *)
EXTENDS BSpline
Tol == 20
Get(f, k) == k \in DOMAIN f
\* relative comparison: 20e-9 + 1e-9 |value|
NearRel(o, r) == NearR(o, r, Tol + Abs(r[1]) \div r[2])
\* a recorded curve [deg, kn, cp, iv, per]
KnotsMatch(d, kn) == Len(d.kn) = Len(kn) /\ \A i \in 1..Len(kn) : NearR(d.kn[i], kn[i], Tol)
CpMatch(d, cp) == Len(d.cp) = Len(cp) /\ \A i \in 1..Len(cp) : NearHom(d.cp[i], cp[i], Tol)
DomMatch(d, c) == NearR(d.iv[1], DomLo(c), Tol) /\ NearR(d.iv[2], DomHi(c), Tol)
WhyNot(d, c) ==
  IF d.deg # c.deg THEN "degree"
  ELSE IF ~KnotsMatch(d, c.kn) THEN "knot vector"
  ELSE IF ~CpMatch(d, c.cp) THEN "control points"
  ELSE IF ~DomMatch(d, c) THEN "domain"
  ELSE IF d.per # c.per THEN "periodic flag"
  ELSE ""
\* derivatives of orders 0..d of the rational curve, one coordinate j, as rationals
HC(h, j) == Norm(h[j], h[5])
Binom(n, k) == LET F[m \in 0..n, q \in 0..k] == IF q = 0 THEN 1 ELSE IF m = 0 THEN 0 ELSE F[m - 1, q - 1] + F[m - 1, q] IN F[n, k]
RECURSIVE SumR(_)
SumR(s) == IF s = <<>> THEN Zero ELSE RAdd(Head(s), SumR(Tail(s)))
\* orders 0..d of coordinate j of the rational curve, from the homogeneous derivatives hs[k+1]
RECURSIVE RatD(_, _, _)
RatD(hs, j, acc) ==
  LET k == Len(acc) IN
  IF k = Len(hs) THEN acc
  ELSE RatD(hs, j, Append(acc,
         RDiv(RSub(HC(hs[k + 1], j),
                   SumR([m \in 1..k |-> RMul(RMul(R(Binom(k, m)), HC(hs[m + 1], 4)), acc[k - m + 1])])),
              HC(hs[1], 4))))
RatDerivs(hs, j) == RatD(hs, j, <<>>)          \* element k+1 is the k-th derivative
Mag(rs) == LET S == {Abs(rs[k][1]) \div rs[k][2] : k \in 1..Len(rs)} IN CHOOSE x \in S : \A y \in S : y <= x
\* observed derivatives os[k+1][j] of orders 0..Len(os)-1; only those in ks are compared
DNearAll(os, hs, ks) ==
  \A j \in 1..3 : LET D == RatDerivs(hs, j)  m == Mag(D)
                  IN \A k \in ks : NearR(os[k + 1][j], D[k + 1], Tol + 10 * m)
=============================================================================
