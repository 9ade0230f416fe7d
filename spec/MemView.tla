------------------------------- MODULE MemView -------------------------------
(* Array views.  A view is [base, shape, pos]: pos lists, in row-major order,  *)
(* the positions of its elements in the array base; two views share memory     *)
(* exactly when they name the same base.  A slice is                           *)
(*   [i |-> TRUE, idx]  or  [i |-> FALSE, hs, s, he, e, st]  (Python's s:e:st). *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1 ELSE Head(q) * Prod(Tail(q))
FullView(base, shape) == [base |-> base, shape |-> shape, pos |-> [k \in 1..Prod(shape) |-> k]]
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* the selected indices (0-based) of one dimension of extent n
RECURSIVE RangeIdx(_, _, _)
RangeIdx(a, b, st) == IF (st > 0 /\ a >= b) \/ (st < 0 /\ a <= b) THEN <<>> ELSE <<a>> \o RangeIdx(a + st, b, st)
Selected(n, sl) ==
  IF sl.i THEN <<IF sl.idx < 0 THEN sl.idx + n ELSE sl.idx>>
  ELSE LET lo == IF sl.st > 0 THEN 0 ELSE -1
           hi == IF sl.st > 0 THEN n ELSE n - 1
           a == IF sl.hs THEN Clamp(IF sl.s < 0 THEN sl.s + n ELSE sl.s, lo, hi) ELSE IF sl.st > 0 THEN lo ELSE hi
           b == IF sl.he THEN Clamp(IF sl.e < 0 THEN sl.e + n ELSE sl.e, lo, hi) ELSE IF sl.st > 0 THEN hi ELSE lo
       IN RangeIdx(a, b, sl.st)
BadSlice(n, sl) == IF sl.i THEN sl.idx >= n \/ sl.idx < -n ELSE sl.st = 0
Full == [i |-> FALSE, hs |-> FALSE, s |-> 0, he |-> FALSE, e |-> 0, st |-> 1, idx |-> 0]
Pad(sls, n) == sls \o [k \in 1..(n - Len(sls)) |-> Full]
BadSlices(v, sls) == Len(sls) > Len(v.shape) \/ \E k \in 1..Len(sls) : BadSlice(v.shape[k], sls[k])
RECURSIVE Gather(_, _, _)
\* positions of the sub-array: offset = element number in pos of the current prefix
Gather(v, sel, off) ==
  IF sel = <<>> THEN <<v.pos[off + 1]>>
  ELSE LET d == Len(v.shape) - Len(sel) + 1
           rest == Prod(SubSeq(v.shape, d + 1, Len(v.shape)))
           RECURSIVE Cat(_)
           Cat(k) == IF k > Len(sel[1]) THEN <<>> ELSE Gather(v, Tail(sel), off + sel[1][k] * rest) \o Cat(k + 1)
       IN Cat(1)
RECURSIVE DropSingles(_, _)
DropSingles(sls, lens) == IF sls = <<>> THEN <<>>
                          ELSE (IF Head(sls).i THEN <<>> ELSE <<Head(lens)>>) \o DropSingles(Tail(sls), Tail(lens))
SliceView(v, sls0) ==
  LET sls == Pad(sls0, Len(v.shape))
      sel == [k \in 1..Len(sls) |-> Selected(v.shape[k], sls[k])]
  IN [base |-> v.base, shape |-> DropSingles(sls, [k \in 1..Len(sel) |-> Len(sel[k])]), pos |-> Gather(v, sel, 0)]
At(v, idx) ==      \* element number (1-based) of a 0-based multi-index
  LET F[k \in 0..Len(idx)] == IF k = 0 THEN 0 ELSE F[k - 1] * v.shape[k] + idx[k] IN F[Len(idx)] + 1
Contiguous(v) == \A k \in 1..(Len(v.pos) - 1) : v.pos[k + 1] = v.pos[k] + 1
=============================================================================
