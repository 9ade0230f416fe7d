------------------------------ MODULE CholModel ------------------------------
(* Design model of the triangular solver for symmetric systems (square roots    *)
(* cancelled: pivots and multipliers of L D L'): it accepts exactly the         *)
(* positive definite matrices and then solves the system; one Newton step on a  *)
(* strictly convex quadratic lands on its minimiser.                            *)
EXTENDS Algebra, TLC
CONSTANTS E, K
VARIABLES A, b
N == 3
Init == /\ A \in {M \in [1..N -> [1..N -> -E..K]] : Symmetric(M)}
        /\ b \in {<<1, 0, 0>>, <<-1, 2, 1>>, <<0, 0, 1>>}
Next == UNCHANGED <<A, b>>
\* d[j]: pivots, l[i][j]: multipliers, built column by column until a pivot is not positive
RECURSIVE Piv(_)
L(r, j) == LET RECURSIVE Sm(_) Sm(k) == IF k = 0 THEN Zero ELSE RAdd(Sm(k - 1), RMul(RMul(Piv(r)[1][k], Piv(j)[1][k]), Piv(k)[2])) IN Sm(j - 1)
\* Piv(r) = <<row of multipliers, pivot>>
Piv(r) == LET RECURSIVE Row(_)
              Row(j) == IF j = 0 THEN <<>>
                        ELSE LET w == Row(j - 1)
                                 RECURSIVE Sm(_) Sm(k) == IF k = 0 THEN Zero ELSE RAdd(Sm(k - 1), RMul(RMul(w[k], Piv(j)[1][k]), Piv(k)[2]))
                             IN Append(w, RDiv(RSub(R(A[r][j]), Sm(j - 1)), Piv(j)[2]))
              w == Row(r - 1)
              RECURSIVE Sq(_) Sq(k) == IF k = 0 THEN Zero ELSE RAdd(Sq(k - 1), RMul(RMul(w[k], w[k]), Piv(k)[2]))
          IN <<w, RSub(R(A[r][r]), Sq(r - 1))>>
RECURSIVE Fine(_)
Fine(r) == r = 0 \/ (Fine(r - 1) /\ RSgn(Piv(r)[2]) > 0)
RECURSIVE Fwd(_)
Fwd(r) == IF r = 0 THEN <<>> ELSE LET y == Fwd(r - 1)
                                      RECURSIVE Sm(_) Sm(k) == IF k = 0 THEN Zero ELSE RAdd(Sm(k - 1), RMul(Piv(r)[1][k], y[k]))
                                  IN Append(y, RSub(R(b[r]), Sm(r - 1)))
RECURSIVE Bwd(_)
Bwd(r) == IF r > N THEN [k \in {} |-> Zero]
          ELSE LET x == Bwd(r + 1)
                   RECURSIVE Sm(_) Sm(k) == IF k > N THEN Zero ELSE RAdd(Sm(k + 1), RMul(Piv(k)[1][r], x[k]))
               IN [k \in r..N |-> IF k = r THEN RSub(RDiv(Fwd(N)[r], Piv(r)[2]), Sm(r + 1)) ELSE x[k]]
Accepts == Fine(N) = PosDef(A)
Solves == Fine(N) => \A k \in 1..N : Bwd(1)[k] = Cramer(A, b)[k]
=============================================================================
