------------------------------- MODULE Algebra -------------------------------
(* Exact algebra of integer vectors, matrices and polynomials; chains of       *)
(* segments; contracts of quadrature and scalar minimisation.                  *)
EXTENDS Rat, FiniteSets
RECURSIVE SumI(_)
SumI(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumI(Tail(s))
\* ---- vectors (any length) ----
VAdd(a, b) == [k \in 1..Len(a) |-> a[k] + b[k]]
VSub(a, b) == [k \in 1..Len(a) |-> a[k] - b[k]]
VMul(a, b) == [k \in 1..Len(a) |-> a[k] * b[k]]
VNeg(a) == [k \in 1..Len(a) |-> -a[k]]
VDot(a, b) == SumI(VMul(a, b))
VCross(p, q) == <<p[2] * q[3] - p[3] * q[2], p[3] * q[1] - p[1] * q[3], p[1] * q[2] - p[2] * q[1]>>
\* ---- matrices as sequences of rows ----
NRows(A) == Len(A)
NCols(A) == Len(A[1])
MTrans(A) == [j \in 1..NCols(A) |-> [k \in 1..NRows(A) |-> A[k][j]]]
MMul(A, B) == [k \in 1..NRows(A) |-> [j \in 1..NCols(B) |-> SumI([l \in 1..NCols(A) |-> A[k][l] * B[l][j]])]]
Minor(A, r, c) == [k \in 1..(Len(A) - 1) |-> [j \in 1..(Len(A) - 1) |-> A[IF k < r THEN k ELSE k + 1][IF j < c THEN j ELSE j + 1]]]
RECURSIVE Det(_)
Det(A) == IF Len(A) = 0 THEN 1 ELSE IF Len(A) = 1 THEN A[1][1]
          ELSE SumI([j \in 1..Len(A) |-> IF A[1][j] = 0 THEN 0 ELSE (IF (j % 2) = 1 THEN 1 ELSE -1) * A[1][j] * Det(Minor(A, 1, j))])
Cof(A, r, c) == (IF ((r + c) % 2) = 0 THEN 1 ELSE -1) * Det(Minor(A, r, c))
\* entry (r, c) of the inverse
InvAt(A, r, c) == Norm(Cof(A, c, r), Det(A))
WithCol(A, c, b) == [k \in 1..Len(A) |-> [j \in 1..Len(A) |-> IF j = c THEN b[k] ELSE A[k][j]]]
Cramer(A, b) == [c \in 1..Len(A) |-> Norm(Det(WithCol(A, c, b)), Det(A))]
Lead(A, n) == [k \in 1..n |-> [j \in 1..n |-> A[k][j]]]
Symmetric(A) == \A r, c \in 1..Len(A) : A[r][c] = A[c][r]
PosDef(A) == \A n \in 1..Len(A) : Det(Lead(A, n)) > 0
\* a leading minor vanishes before any negative one: rounding decides
\* l: integer triangular factor of the leading part of A that ends in a vanishing pivot (so no rounding is involved)
Exactly(A, l) == /\ Len(l) >= 1 /\ Len(l) <= Len(A) /\ l[Len(l)][Len(l)] = 0
                 /\ \A r \in 1..Len(l) : (r < Len(l) => l[r][r] > 0) /\ \A c \in 1..Len(l) : c > r => l[r][c] = 0
                 /\ \A r, c \in 1..Len(l) : A[r][c] = VDot(l[r], l[c])
Borderline(A) == \E n \in 1..Len(A) : Det(Lead(A, n)) = 0 /\ \A m \in 1..(n - 1) : Det(Lead(A, m)) > 0
RECURSIVE Choose(_, _)
Choose(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 THEN 1 ELSE LET c == Choose(n, k - 1) IN (c \div k) * (n - k + 1) + (((c % k) * (n - k + 1)) \div k)
\* ---- polynomials: coefficient sequences of rationals, c[1] constant ----
RECURSIVE PEval(_, _)
PEval(c, x) == IF c = <<>> THEN Zero ELSE RAdd(Head(c), RMul(x, PEval(Tail(c), x)))
PPrim(c) == [k \in 1..(Len(c) + 1) |-> IF k = 1 THEN Zero ELSE RDiv(c[k - 1], R(k - 1))]
PInt(c, a, b) == RSub(PEval(PPrim(c), b), PEval(PPrim(c), a))
\* ---- segments joined into polylines ----
Seg(a, b) == {a, b}
\* how often the unordered pair s occurs
Cnt(L, s) == Cardinality({k \in 1..Len(L) : L[k] = s})
Same(L, M) == Len(L) = Len(M) /\ \A k \in 1..Len(L) : Cnt(L, L[k]) = Cnt(M, L[k])
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
\* the segments of polyline p; a ring (c = 1) also has the closing one
PSegs(p, c) == [k \in 1..(Len(p) - 1 + c) |-> Seg(p[k], p[(k % Len(p)) + 1])]
AllSegs(br, cl) == Flat([k \in 1..Len(br) |-> PSegs(br[k], cl[k])])
\* number of segment ends at point v
Deg(G, v) == Cardinality({k \in 1..Len(G) : G[k][1] = v}) + Cardinality({k \in 1..Len(G) : G[k][2] = v})
\* the polylines br with closedness cl split the segments G exactly, and no polyline ends where exactly two ends meet
ChainsOK(G, br, cl) ==
  /\ \A k \in 1..Len(br) : Len(br[k]) >= 1 /\ (cl[k] = 0 => Len(br[k]) >= 2)
  /\ Same(AllSegs(br, cl), [k \in 1..Len(G) |-> Seg(G[k][1], G[k][2])])
  /\ \A k \in 1..Len(br) : cl[k] = 0 => Deg(G, br[k][1]) # 2 /\ Deg(G, br[k][Len(br[k])]) # 2
Chains(G, br) == \E cl \in [1..Len(br) -> {0, 1}] : ChainsOK(G, br, cl)
=============================================================================
