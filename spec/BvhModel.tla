------------------------------- MODULE BvhModel -------------------------------
(* Design model of the bounding volume hierarchy: both builders as in the code *)
(* (spatial median split with fall-backs; pairwise merging along the widest    *)
(* axis), box queries and pairwise intersection, checked against the object    *)
(* lists themselves.                                                           *)
EXTENDS Boxes, TLC
CONSTANTS Ext, MaxObj, Max2
VARIABLES objs, objs2, t1, t2
Iv == {<<a, b>> \in (0..Ext) \X (0..Ext) : a <= b}
AllBoxes == {[lo |-> <<x[1], y[1], 0>>, hi |-> <<x[2], y[2], 1>>] : x \in Iv, y \in Iv}
Nil == [k |-> "nil"]
Leaf(o, id) == [k |-> "leaf", box |-> o[id], id |-> id]
Inner(b, l, r) == [k |-> "inner", box |-> b, l |-> l, r |-> r]
Union(o, s) == LET RECURSIVE U(_) U(q) == IF q = <<>> THEN Empty ELSE Join(o[Head(q)], U(Tail(q))) IN U(s)
Wid(b, j) == b.hi[j] - b.lo[j]
\* axes by decreasing extent (ties: lower axis first)
AxisOrder(b) == CHOOSE p \in {<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>} :
                  \A a \in 1..2 : Wid(b, p[a]) > Wid(b, p[a + 1]) \/ (Wid(b, p[a]) = Wid(b, p[a + 1]) /\ p[a] < p[a + 1])
SplitBy(o, s, b, j) == <<SelectSeq(s, LAMBDA i : 2 * o[i].lo[j] < b.lo[j] + b.hi[j]), SelectSeq(s, LAMBDA i : ~(2 * o[i].lo[j] < b.lo[j] + b.hi[j]))>>
SplitObjs(o, s) ==
  LET b == Union(o, s)   m == Len(s) \div 2
      half == <<SubSeq(s, 1, m), SubSeq(s, m + 1, Len(s))>>
      p == AxisOrder(b)
      Good(j) == Wid(b, p[j]) > 0 /\ LET x == SplitBy(o, s, b, p[j]) IN x[1] # <<>> /\ x[2] # <<>>
  IN IF Good(1) THEN SplitBy(o, s, b, p[1]) ELSE IF Good(2) THEN SplitBy(o, s, b, p[2]) ELSE IF Good(3) THEN SplitBy(o, s, b, p[3]) ELSE half
RECURSIVE TopDown(_, _)
TopDown(o, s) == IF s = <<>> THEN Nil ELSE IF Len(s) = 1 THEN Leaf(o, s[1])
                 ELSE LET x == SplitObjs(o, s)  l == TopDown(o, x[1])  r == TopDown(o, x[2]) IN Inner(Join(l.box, r.box), l, r)
\* one merging round over leaves sorted along the widest axis
SortBy(ls, j) == LET Before(a, b) == ls[a].box.lo[j] < ls[b].box.lo[j] \/ (ls[a].box.lo[j] = ls[b].box.lo[j] /\ a < b)
                     Rank(a) == Cardinality({b \in 1..Len(ls) : Before(b, a)}) + 1
                 IN [k \in 1..Len(ls) |-> ls[CHOOSE a \in 1..Len(ls) : Rank(a) = k]]
RECURSIVE Pairs(_)
Pairs(ls) == IF Len(ls) <= 1 THEN ls ELSE <<Inner(Join(ls[1].box, ls[2].box), ls[1], ls[2])>> \o Pairs(SubSeq(ls, 3, Len(ls)))
RECURSIVE Merge(_)
Merge(ls) == IF Len(ls) = 1 THEN ls[1]
             ELSE LET U == LET RECURSIVE V(_) V(q) == IF q = <<>> THEN Empty ELSE Join(Head(q).box, V(Tail(q))) IN V(ls)
                      ax == IF Wid(U, 1) > Wid(U, 2) /\ Wid(U, 1) > Wid(U, 3) THEN 1 ELSE IF Wid(U, 2) > Wid(U, 3) THEN 2 ELSE 3
                  IN Merge(Pairs(SortBy(ls, ax)))
BottomUp(o) == IF o = <<>> THEN Nil ELSE Merge([k \in 1..Len(o) |-> Leaf(o, k)])
Lists == UNION {[1..m -> AllBoxes] : m \in 0..MaxObj}
Build(o, how) == IF how = 0 THEN TopDown(o, [k \in 1..Len(o) |-> k]) ELSE BottomUp(o)
Init == \E a \in Lists : \E b \in UNION {[1..m -> AllBoxes] : m \in 1..Max2} : \E h \in 0..1 :
           objs = a /\ objs2 = b /\ t1 = Build(a, h) /\ t2 = Build(b, 1 - h)
Next == UNCHANGED <<objs, objs2, t1, t2>>
RECURSIVE LeavesOf(_)
LeavesOf(t) == IF t.k = "nil" THEN <<>> ELSE IF t.k = "leaf" THEN <<t.id>> ELSE LeavesOf(t.l) \o LeavesOf(t.r)
RECURSIVE Tight(_)
Tight(t) == t.k # "inner" \/ (t.box = Join(t.l.box, t.r.box) /\ Tight(t.l) /\ Tight(t.r))
RECURSIVE Query(_, _)
Query(t, b) == IF t.k = "nil" THEN {} ELSE IF ~Meet(t.box, b) THEN {} ELSE IF t.k = "leaf" THEN {t.id} ELSE Query(t.l, b) \cup Query(t.r, b)
RECURSIVE Isect(_, _, _)
Isect(a, b, vol) ==
  IF a.k = "nil" \/ b.k = "nil" THEN {} ELSE IF ~Meet(a.box, b.box) THEN {} ELSE IF vol /\ Volume(Common(a.box, b.box)) = 0 THEN {}
  ELSE IF a.k = "leaf" /\ b.k = "leaf" THEN {<<a.id, b.id>>}
  ELSE IF a.k = "leaf" THEN Isect(a, b.l, vol) \cup Isect(a, b.r, vol)
  ELSE IF b.k = "leaf" THEN Isect(a.l, b, vol) \cup Isect(a.r, b, vol)
  ELSE Isect(a.l, b.l, vol) \cup Isect(a.l, b.r, vol) \cup Isect(a.r, b.l, vol) \cup Isect(a.r, b.r, vol)
EachOnce == LET l == LeavesOf(t1) IN Len(l) = Len(objs) /\ {l[k] : k \in 1..Len(l)} = 1..Len(objs)
TightBoxes == Tight(t1)
QueryOK == \A b \in AllBoxes : Query(t1, b) = {k \in 1..Len(objs) : Meet(objs[k], b)}
IsectOK == /\ Isect(t1, t2, FALSE) = {x \in (1..Len(objs)) \X (1..Len(objs2)) : Meet(objs[x[1]], objs2[x[2]])}
           /\ Isect(t1, t2, TRUE) = {x \in (1..Len(objs)) \X (1..Len(objs2)) : Meet(objs[x[1]], objs2[x[2]]) /\ Volume(Common(objs[x[1]], objs2[x[2]])) > 0}
=============================================================================
