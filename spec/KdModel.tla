------------------------------- MODULE KdModel -------------------------------
(* Design model of the k-d tree: median building (any arrangement a partial    *)
(* sort may leave), insertion, pruned range search and pruned nearest-neighbour *)
(* search, checked against the multiset of stored points.                      *)
EXTENDS Boxes, TLC
CONSTANTS Ext, MaxBuild, MaxIns
VARIABLES tree, bag, n
Pts == (0..Ext) \X (0..Ext) \X (0..1)
Nil == [leaf |-> TRUE]
Node(p, ax, l, r) == [leaf |-> FALSE, p |-> p, ax |-> ax, l |-> l, r |-> r]
RemoveAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Idx(s) == 1..Len(s)
Pick(s, I) == LET RECURSIVE P(_) P(k) == IF k > Len(s) THEN <<>> ELSE (IF k \in I THEN <<s[k]>> ELSE <<>>) \o P(k + 1) IN P(1)
\* all trees the median construction may return for the point sequence s
RECURSIVE Trees(_, _)
Trees(s, depth) ==
  IF s = <<>> THEN {Nil}
  ELSE LET ax == (depth % 3) + 1   half == Len(s) \div 2
           Splits == {x \in Idx(s) \X SUBSET Idx(s) :
                        /\ x[1] \notin x[2] /\ Cardinality(x[2]) = half
                        /\ \A a \in x[2] : s[a][ax] <= s[x[1]][ax]
                        /\ \A b \in Idx(s) \ (x[2] \cup {x[1]}) : s[x[1]][ax] <= s[b][ax]}
       IN UNION {{Node(s[x[1]], ax, t[1], t[2]) : t \in Trees(Pick(s, x[2]), depth + 1) \X Trees(Pick(s, Idx(s) \ (x[2] \cup {x[1]})), depth + 1)} : x \in Splits}
RECURSIVE Ins(_, _, _)
Ins(t, p, depth) == IF t.leaf THEN Node(p, (depth % 3) + 1, Nil, Nil)
                    ELSE IF p[t.ax] < t.p[t.ax] THEN [t EXCEPT !.l = Ins(t.l, p, depth + 1)] ELSE [t EXCEPT !.r = Ins(t.r, p, depth + 1)]
RECURSIVE Range(_, _)
Range(t, b) == IF t.leaf THEN <<>>
               ELSE (IF Has(b, t.p) THEN <<t.p>> ELSE <<>>)
                    \o (IF b.lo[t.ax] <= t.p[t.ax] THEN Range(t.l, b) ELSE <<>>)
                    \o (IF b.hi[t.ax] >= t.p[t.ax] THEN Range(t.r, b) ELSE <<>>)
RECURSIVE Near(_, _, _)
Near(t, q, best) ==
  IF t.leaf THEN best
  ELSE LET b1 == IF D2(q, t.p) < D2(q, best) THEN t.p ELSE best
           left == q[t.ax] < t.p[t.ax]
           b2 == Near(IF left THEN t.l ELSE t.r, q, b1)
           diff == q[t.ax] - t.p[t.ax]
       IN IF diff * diff < D2(q, b2) THEN Near(IF left THEN t.r ELSE t.l, q, b2) ELSE b2
SeqsUpTo(k) == UNION {[1..m -> Pts] : m \in 0..k}
Sorted(s) == \A a \in 1..(Len(s) - 1) : 100 * s[a][1] + 10 * s[a][2] + s[a][3] <= 100 * s[a + 1][1] + 10 * s[a + 1][2] + s[a + 1][3]
Init == \E s \in {x \in SeqsUpTo(MaxBuild) : Sorted(x)} : \E t \in Trees(s, 0) : tree = t /\ bag = BagOf(s) /\ n = 0
Next == n < MaxIns /\ n' = n + 1 /\ \E p \in Pts : tree' = Ins(tree, p, 0) /\ bag' = BagAdd(bag, p)
Boxes3 == {b \in [lo : Pts, hi : Pts] : \A j \in 1..3 : b.lo[j] <= b.hi[j]}
RangeOK == \A b \in Boxes3 : BagOf(Range(tree, b)) = [x \in {y \in DOMAIN bag : Has(b, y)} |-> bag[x]]
NearOK == tree.leaf \/ \A q \in Pts : LET r == Near(tree, q, tree.p) IN r \in DOMAIN bag /\ \A y \in DOMAIN bag : D2(q, r) <= D2(q, y)
=============================================================================
