------------------------------- MODULE CurveAlg -------------------------------
(* The library's curve algorithms over exact arithmetic: span search, Boehm    *)
(* insertion in rounds, splitting by insertion, the triangular basis scheme.   *)
EXTENDS BSpline
FindSpan(cv, t) ==           \* linear search, 0-based result as in the code
  LET n == Len(cv.cp)
      Walk[k \in (cv.deg + 1)..n] == IF k < n /\ RLe(cv.kn[k + 1], t) THEN Walk[k + 1] ELSE k - 1
  IN Walk[cv.deg + 1]
RECURSIVE InsRounds(_, _, _, _, _, _, _, _)
InsRounds(cv, u, num, s, span, j, temp, new) ==
  IF j > num THEN <<temp, new>>
  ELSE LET L  == span - cv.deg + j
           m  == cv.deg - j - s
           al(q) == RDiv(RSub(u, cv.kn[L + q + 1]), RSub(cv.kn[q + span + 2], cv.kn[L + q + 1]))
           t2 == [q \in 1..Len(temp) |-> IF q - 1 <= m THEN HLerp(temp[q], temp[q + 1], al(q - 1)) ELSE temp[q]]
           n2 == [[new EXCEPT ![L + 1] = t2[1]] EXCEPT ![span + num - j - s + 1] = t2[m + 1]]
       IN InsRounds(cv, u, num, s, span, j + 1, t2, n2)
Boehm(cv, u, num) ==
  LET p == cv.deg  n == Len(cv.cp)  s == Mult(cv.kn, u)  span == FindSpan(cv, u)
      new0 == [q \in 1..(n + num) |-> IF q - 1 <= span - p THEN cv.cp[q]
                                      ELSE IF q - 1 - num >= span - s THEN cv.cp[q - num] ELSE <<0, 0, 0, 0, 1>>]
      temp0 == [q \in 1..(p - s + 1) |-> cv.cp[span - p + q]]
      r == InsRounds(cv, u, num, s, span, 1, temp0, new0)
      L == span - p + num
      cp == [q \in 1..(n + num) |-> IF q - 1 > L /\ q - 1 < span - s THEN r[1][q - L] ELSE r[2][q]]
  IN [cv EXCEPT !.kn = SubSeq(cv.kn, 1, span + 1) \o Repeat(u, num) \o SubSeq(cv.kn, span + 2, Len(cv.kn)), !.cp = cp]
SplitAlg(cv, t) ==           \* insertion to full multiplicity, then cutting
  LET s  == Mult(cv.kn, t)
      r  == cv.deg - s
      w  == IF r > 0 THEN Boehm(cv, t, r) ELSE cv
      ks == FindSpan([w EXCEPT !.cp = w.cp \o <<0>>], t) + 1
      k0 == FindSpan(cv, t) - cv.deg + 1
  IN <<[cv EXCEPT !.kn = Append(SubSeq(w.kn, 1, ks), t), !.cp = SubSeq(w.cp, 1, k0 + r)],
       [cv EXCEPT !.kn = Repeat(t, cv.deg + 1) \o SubSeq(w.kn, ks + 1, Len(w.kn)), !.cp = SubSeq(w.cp, k0 + r, Len(w.cp))]>>
\* the triangular basis algorithm
RECURSIVE BasisRow(_, _, _, _, _)
BasisRow(cv, span, u, j, N) ==
  IF j > cv.deg THEN N
  ELSE LET left(q) == RSub(u, cv.kn[span + 2 - q])   right(q) == RSub(cv.kn[span + 1 + q], u)
           tmp(r) == RDiv(N[r], RAdd(right(r), left(j - r + 1)))
       IN BasisRow(cv, span, u, j + 1,
            [r \in 1..(j + 1) |->
               RAdd(IF r = 1 THEN Zero ELSE RMul(left(j - r + 2), tmp(r - 1)),
                    IF r = j + 1 THEN Zero ELSE RMul(right(r), tmp(r)))])
Basis(cv, u) == BasisRow(cv, FindSpan(cv, u), u, 1, <<One>>)
RECURSIVE SumRat(_)
SumRat(s) == IF s = <<>> THEN Zero ELSE RAdd(Head(s), SumRat(Tail(s)))
PointByBasis(cv, u) ==
  LET span == FindSpan(cv, u)  N == Basis(cv, u)
      X(j) == SumRat([k \in 1..(cv.deg + 1) |-> RMul(N[k], Norm(cv.cp[span - cv.deg + k][j], cv.cp[span - cv.deg + k][5]))])
  IN [j \in 1..4 |-> X(j)]

=============================================================================
