------------------------------- MODULE InvModel -------------------------------
(* Design model of Gauss-Jordan inversion with partial pivoting, one column per *)
(* step: it stops exactly on singular matrices and otherwise yields the inverse *)
(* (the adjugate over the determinant).                                         *)
EXTENDS Algebra, TLC
CONSTANTS N, E
VARIABLES M, W, col, bad
Init == /\ M \in [1..N -> [1..N -> -E..E]] /\ col = 1 /\ bad = FALSE
        /\ W = [r \in 1..N |-> [c \in 1..(2 * N) |-> IF c <= N THEN R(M[r][c]) ELSE IF c - N = r THEN One ELSE Zero]]
Step == /\ col <= N /\ ~bad
        /\ LET rows == col..N
               p == CHOOSE r \in rows : (\A q \in rows : RLe(RAbs(W[q][col]), RAbs(W[r][col])))
                                        /\ \A q \in rows : q < r => RLt(RAbs(W[q][col]), RAbs(W[r][col]))
               S == [r \in 1..N |-> IF r = col THEN W[p] ELSE IF r = p THEN W[col] ELSE W[r]]
           IN IF W[p][col] = Zero THEN bad' = TRUE /\ UNCHANGED <<W, col>>
              ELSE LET h == [c \in 1..(2 * N) |-> RDiv(S[col][c], S[col][col])]
                   IN /\ W' = [r \in 1..N |-> IF r = col THEN h ELSE [c \in 1..(2 * N) |-> RSub(S[r][c], RMul(S[r][col], h[c]))]]
                      /\ col' = col + 1 /\ bad' = FALSE
Next == Step /\ UNCHANGED M
Singular == (bad => Det(M) = 0) /\ (col > N => Det(M) # 0)
Inverse == col > N => \A r, c \in 1..N : W[r][N + c] = InvAt(M, r, c)
\* the exact determinant and products the observations are compared with are consistent with each other
Laws == /\ Det(MTrans(M)) = Det(M) /\ Det(MMul(M, MTrans(M))) = Det(M) * Det(M)
        /\ (N <= 2 => MTrans(MTrans(M)) = M)
=============================================================================
