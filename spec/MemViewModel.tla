----------------------------- MODULE MemViewModel -----------------------------
(* Design model: the library keeps offset + strides and computes lengths in    *)
(* closed form; checked against the positions of module MemView for every chain *)
(* of slices and reshapes over small arrays.                                   *)
EXTENDS MemView, TLC
CONSTANTS MaxExt, MaxDims, MaxOps
VARIABLES v, im, n          \* specification view; implementation [shape, str, off]; operations so far
Shapes == UNION {[1..d -> 0..MaxExt] : d \in 1..MaxDims}
Strides(sh) == [k \in 1..Len(sh) |-> Prod(SubSeq(sh, k + 1, Len(sh)))]
Init == \E sh \in Shapes : v = FullView(1, sh) /\ im = [shape |-> sh, str |-> Strides(sh), off |-> 0] /\ n = 0
Bnd == {-(MaxExt + 1), -1, 0, 1, MaxExt + 1}
Slices == {[Full EXCEPT !.i = TRUE, !.idx = x] : x \in {-1, 0, 1}}
          \cup {[i |-> FALSE, hs |-> hs, s |-> s, he |-> he, e |-> e, st |-> st, idx |-> 0] :
                 hs \in BOOLEAN, he \in BOOLEAN, s \in Bnd, e \in Bnd, st \in {-2, -1, 1, 2}}
\* the code of MemoryView::slice for one dimension
Len1(a, b, st) == IF st > 0 THEN IF a < b THEN (b - a + st - 1) \div st ELSE 0
                  ELSE IF a > b THEN (a - b - st - 1) \div (-st) ELSE 0
ImSlice(sl, nn, str) ==
  IF sl.i THEN [keep |-> FALSE, len |-> 1, str |-> 0, off |-> (IF sl.idx < 0 THEN sl.idx + nn ELSE sl.idx) * str]
  ELSE LET a0 == IF sl.hs THEN IF sl.s < 0 THEN sl.s + nn ELSE sl.s ELSE IF sl.st > 0 THEN 0 ELSE nn - 1
           b0 == IF sl.he THEN IF sl.e < 0 THEN sl.e + nn ELSE sl.e ELSE IF sl.st > 0 THEN nn ELSE -1
           lo == IF sl.st > 0 THEN 0 ELSE -1   hi == IF sl.st > 0 THEN nn ELSE nn - 1
           a == Clamp(a0, lo, hi)  b == Clamp(b0, lo, hi)  l == Len1(a, b, sl.st)
       IN [keep |-> TRUE, len |-> l, str |-> str * sl.st, off |-> IF l > 0 THEN a * str ELSE 0]
\* slice the first dimension, keep the others, then rotate: every dimension gets its turn
SliceFirst == \E sl \in Slices :
  /\ Len(v.shape) >= 1 /\ ~BadSlice(v.shape[1], sl)
  /\ v' = SliceView(v, <<sl>>)
  /\ LET r == ImSlice(sl, im.shape[1], im.str[1])
     IN im' = [shape |-> (IF r.keep THEN <<r.len>> ELSE <<>>) \o Tail(im.shape),
               str |-> (IF r.keep THEN <<r.str>> ELSE <<>>) \o Tail(im.str), off |-> im.off + r.off]
SliceSecond == \E sl \in Slices :
  /\ Len(v.shape) >= 2 /\ ~BadSlice(v.shape[2], sl)
  /\ v' = SliceView(v, <<Full, sl>>)
  /\ LET r == ImSlice(sl, im.shape[2], im.str[2])
     IN im' = [shape |-> <<im.shape[1]>> \o (IF r.keep THEN <<r.len>> ELSE <<>>) \o SubSeq(im.shape, 3, Len(im.shape)),
               str |-> <<im.str[1]>> \o (IF r.keep THEN <<r.str>> ELSE <<>>) \o SubSeq(im.str, 3, Len(im.str)), off |-> im.off + r.off]
\* reshaping without moving elements: groups of old and new dimensions of equal size
Squeeze(sh, st) == LET S == SelectSeq([k \in 1..Len(sh) |-> <<sh[k], st[k]>>], LAMBDA p : p[1] # 1) IN S
RECURSIVE Regroup(_, _)
\* old: sequence of <<extent, stride>> (no ones), new: extents; the new strides, or <<-999>> appended when impossible
Regroup(old, new) ==
  IF old = <<>> THEN [k \in 1..Len(new) |-> 1]
  ELSE LET PO(a) == Prod([k \in 1..a |-> old[k][1]])   PN(b) == Prod(SubSeq(new, 1, b))
           P == {<<a, b>> \in (1..Len(old)) \X (1..Len(new)) : PO(a) = PN(b)}
           g == CHOOSE x \in P : \A y \in P : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
           ok == \A k \in 1..(g[1] - 1) : old[k][2] = old[k + 1][2] * old[k + 1][1]
           mine == [k \in 1..g[2] |-> old[g[1]][2] * Prod(SubSeq(new, k + 1, g[2]))]
       IN IF ~ok THEN <<-999>> ELSE mine \o Regroup(SubSeq(old, g[1] + 1, Len(old)), SubSeq(new, g[2] + 1, Len(new)))
Reshape == \E sh \in Shapes :
  /\ Len(v.shape) >= 1 /\ Prod(sh) = Prod(v.shape) /\ Prod(sh) > 0
  /\ LET st == Regroup(Squeeze(im.shape, im.str), sh)
     IN /\ \A k \in 1..Len(st) : st[k] # -999
        /\ v' = [v EXCEPT !.shape = sh]
        /\ im' = [im EXCEPT !.shape = sh, !.str = st]
Next == n < MaxOps /\ n' = n + 1 /\ (SliceFirst \/ SliceSecond \/ Reshape)
\* refinement: same shape, same elements at every index, and never outside the array
RECURSIVE Addresses(_, _, _)
Addresses(sh, st, off) == IF sh = <<>> THEN <<off + 1>>
  ELSE LET RECURSIVE Cat(_)
           Cat(k) == IF k >= sh[1] THEN <<>> ELSE Addresses(Tail(sh), Tail(st), off + k * st[1]) \o Cat(k + 1)
       IN Cat(0)
SameView == im.shape = v.shape /\ Addresses(im.shape, im.str, im.off) = v.pos
\* a contiguous view can always be reshaped
CanReshape == (Len(v.shape) >= 1 /\ Contiguous(v) /\ Len(v.pos) > 0) =>
   \A sh \in Shapes : Prod(sh) = Len(v.pos) => \A k \in 1..Len(Regroup(Squeeze(im.shape, im.str), sh)) : Regroup(Squeeze(im.shape, im.str), sh)[k] # -999
=============================================================================
