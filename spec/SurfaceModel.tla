----------------------------- MODULE SurfaceModel -----------------------------
(* Design model of surface editing: the library edits a tensor-product surface *)
(* row by row / column by column with the curve algorithms of CurveModel       *)
(* (Boehm insertion, splitting by insertion), extracts isocurves and evaluates *)
(* by reducing in one direction first; checked against the polar definition.   *)
EXTENDS BSurface, CurveAlg, TLC
CONSTANTS MaxDeg, MaxOps
VARIABLES s0, s, n
\* the library's direction handling: columns are gathered, edited as curves and written back
InsertAlg(x, dir, t, k) == IF dir = 0 THEN Cols(x, LAMBDA c : Boehm(c, t, k)) ELSE Rows(x, LAMBDA c : Boehm(c, t, k))
SplitAlgS(x, dir, t, side) == IF dir = 0 THEN Cols(x, LAMBDA c : SplitAlg(c, t)[side]) ELSE Rows(x, LAMBDA c : SplitAlg(c, t)[side])
Ks(p) == {[k \in 1..(2 * p + 2) |-> R(IF k <= p + 1 THEN 0 ELSE 2)],
          [k \in 1..(2 * p + 3) |-> R(IF k <= p + 1 THEN 0 ELSE IF k = p + 2 THEN 1 ELSE 2)]}
Pt(a, b) == HNorm(<<2 * a - b, ((a * b) % 3) + b, a - ((b * b) % 4), 1 + ((a + 2 * b) % 3), 1 + ((a + b) % 2)>>)
Init == /\ \E p \in 1..MaxDeg : \E r \in 1..MaxDeg : \E ku \in Ks(p) : \E kv \in Ks(r) :
             s0 = [set |-> TRUE, du |-> p, dv |-> r, ku |-> ku, kv |-> kv,
                   cp |-> [a \in 1..(Len(ku) - p - 1) |-> [b \in 1..(Len(kv) - r - 1) |-> Pt(a, b)]]]
        /\ s = s0 /\ n = 0
Grid(lo, hi) == {RAdd(lo, RMul(RSub(hi, lo), Norm(k, 4))) : k \in 0..4}
Inner(x, dir) == {t \in (IF dir = 0 THEN Grid(ULo(x), UHi(x)) ELSE Grid(VLo(x), VHi(x))) :
                    IF dir = 0 THEN RLt(ULo(x), t) /\ RLt(t, UHi(x)) ELSE RLt(VLo(x), t) /\ RLt(t, VHi(x))}
Room(x, dir, t) == IF dir = 0 THEN x.du - Mult(x.ku, t) ELSE x.dv - Mult(x.kv, t)
Small(t) == t[2] <= 4
Next == /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED s0
        /\ \E dir \in 0..1 : \E t \in Inner(s, dir) : Small(t) /\
             \/ \E k \in 1..Room(s, dir, t) : s' = InsertAlg(s, dir, t, k)
             \/ \E side \in 1..2 : s' = SplitAlgS(s, dir, t, side)
Dom == Grid(ULo(s), UHi(s)) \X Grid(VLo(s), VHi(s))
SamePoints == \A p \in Dom : LET a == HSurf(s, p[1], p[2])  b == HSurf(s0, p[1], p[2]) IN a = b           \* S02, S03
OrderFree == \A p \in Dom : HSurf(s, p[1], p[2]) = CPoint(IsoV(s, p[2]), p[1])                            \* S01: u first = v first
Corners == HSurf(s, ULo(s), VLo(s)) = s.cp[1][1] /\ HSurf(s, UHi(s), VHi(s)) = s.cp[NU(s)][NV(s)]
Edits == \A dir \in 0..1 : \A t \in Inner(s, dir) :
           /\ Room(s, dir, t) > 0 => InsertAlg(s, dir, t, Room(s, dir, t)) = SInsert(s, dir, t, Room(s, dir, t))
           /\ SplitAlgS(s, dir, t, 1) = SLeft(s, dir, t) /\ SplitAlgS(s, dir, t, 2) = SRight(s, dir, t)
Commute == n = 0 => \A u \in Inner(s, 0) : \A v \in Inner(s, 1) :                                          \* S03: quadrants in either order
             SLeft(SRight(s, 0, u), 1, v) = SRight(SLeft(s, 1, v), 0, u)
IsoOn == \A u \in Grid(ULo(s), UHi(s)) : \A v \in Grid(VLo(s), VHi(s)) : CPoint(IsoU(s, u), v) = HSurf(s, u, v)   \* S04
Boxed == \A p \in Dom : \A j \in 1..3 :                                                                    \* S06
           LET h == HSurf(s, p[1], p[2])  E(q) == Norm(q[j], q[4])
               C == {s.cp[a][b] : a \in 1..NU(s), b \in 1..NV(s)}
           IN /\ \E q \in C : RLe(E(q), E(h))
              /\ \E q \in C : RLe(E(h), E(q))
\* S05: mixed derivatives commute
DerivComm == (n = 0 /\ \A a \in 1..NU(s) : \A b \in 1..NV(s) : TRUE) => SHodo(SHodo(s, 0), 1) = SHodo(SHodo(s, 1), 0)
\* S07: the library's derivative control points of a range of control points (A3.3, A3.7) are the nets of the hodographs
RECURSIVE PK(_, _, _, _)
PK(c, r1, r2, k) ==       \* row k of curve_deriv_cpts on the 0-based range r1..r2; element i + 1 is PK[k][i]
  IF k = 0 THEN SubSeq(c.cp, r1 + 1, r2 + 1)
  ELSE LET q == PK(c, r1, r2, k - 1)
       IN [a \in 1..(r2 - r1 - k + 1) |-> HScaleSub(q[a + 1], q[a], RDiv(R(c.deg - k + 1), RSub(c.kn[r1 + a + c.deg + 1], c.kn[r1 + a + k])))]
Solid(c, r1, r2, k) == \A l \in 1..k : \A a \in 1..(r2 - r1 - l + 1) : c.kn[r1 + a + c.deg + 1] # c.kn[r1 + a + l]
NetOfCurve(c) == \A r1 \in 0..(NCp(c) - 1) : \A r2 \in r1..(NCp(c) - 1) : \A k \in 0..c.deg :
  Solid(c, r1, r2, k) => LET h == CHodoN(c, k) IN PK(c, r1, r2, k) = [a \in 1..(IF r2 - r1 < k THEN 0 ELSE r2 - r1 - k + 1) |-> h.cp[r1 + a]]
Derivs(x, u, v, d) == [k \in 1..(d + 1) |-> [l \in 1..(d + 1) |->
  IF k - 1 > x.du \/ l - 1 > x.dv THEN <<0, 0, 0, 0, 1>> ELSE HSurf(SHodoN(x, k - 1, l - 1), u, v)]]
SumSeq(q) == SumR(q)
RECURSIVE LibQuot(_, _, _, _)
LibQuot(A, j, todo, f) ==  \* A4.4 with its three sums, in the library's order
  IF todo = <<>> THEN f
  ELSE LET k == todo[1][1]  l == todo[1][2]  W(a, b) == HC(A[a + 1][b + 1], 4)
           s1 == SumSeq([b \in 1..l |-> RMul(RMul(R(Binom(l, b)), W(0, b)), f[<<k, l - b>>])])
           s2 == SumSeq([a \in 1..k |-> RMul(R(Binom(k, a)),
                   RAdd(RMul(W(a, 0), f[<<k - a, l>>]), SumSeq([b \in 1..l |-> RMul(RMul(R(Binom(l, b)), W(a, b)), f[<<k - a, l - b>>])])))])
           v == RDiv(RSub(RSub(HC(A[k + 1][l + 1], j), s1), s2), W(0, 0))
       IN LibQuot(A, j, Tail(todo), [q \in DOMAIN f \cup {<<k, l>>} |-> IF q = <<k, l>> THEN v ELSE f[q]])
Halves(lo, hi) == {RAdd(lo, RMul(RSub(hi, lo), Norm(k, 2))) : k \in 0..2}
DerivNet == n = 0 =>
  /\ NetOfCurve(ColCurve(s, 1)) /\ NetOfCurve(RowCurve(s, NU(s)))
  /\ SHodoN(s, 1, 1) = SHodo(SHodo(s, 1), 0)
  /\ \A u \in Halves(ULo(s), UHi(s)) : \A v \in Halves(VLo(s), VHi(s)) : \E A \in {Derivs(s, u, v, 1)} : \A j \in 1..3 :
       \E f \in {QuotDerivs(A, 1, j)} :
         /\ f = LibQuot(A, j, Orders(1), [q \in {} |-> Zero])
         /\ f[<<1, 0>>] = Partial(s, 0, u, v)[j] /\ f[<<0, 1>>] = Partial(s, 1, u, v)[j]
  /\ \E A \in {[k \in 1..3 |-> [l \in 1..3 |-> <<k - 2 * l, k * l, 3 - k, IF k + l = 2 THEN 2 ELSE (k + 2 * l) % 3, 1>>]]} :
       \A j \in 1..3 : QuotDerivs(A, 2, j) = LibQuot(A, j, Orders(2), [q \in {} |-> Zero])
=============================================================================
