------------------------------ MODULE Hull2Model ------------------------------
(* The library's angular scan (lowest point, angular sort, farthest of each    *)
(* ray, stack of left turns) against the definition of the convex hull, for    *)
(* every list of points of a grid.                                             *)
EXTENDS Geom, TLC
CONSTANTS Ext, Max
VARIABLE pts
Pt == (0..Ext) \X (0..Ext)
Init == pts \in UNION {[1..n -> Pt] : n \in 1..Max}
Next == UNCHANGED pts
D(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
Lowest(s) == CHOOSE k \in 1..Len(s) : \A l \in 1..Len(s) : s[k][2] < s[l][2] \/ (s[k][2] = s[l][2] /\ s[k][1] <= s[l][1])
Before(p0, a, b) == LET o == Cr(p0, a, b) IN IF o = 0 THEN D(p0, a) < D(p0, b) ELSE o > 0
\* the points after the lowest one, whatever their order, are sorted by angle and then by distance
Sorted(p0, s) == SortSeq(s, LAMBDA a, b : Before(p0, a, b))
RECURSIVE Far(_, _, _)
Far(p0, s, k) == IF k > Len(s) THEN <<>>
                 ELSE IF k < Len(s) /\ Cr(p0, s[k], s[k + 1]) = 0 THEN Far(p0, s, k + 1)
                 ELSE <<s[k]>> \o Far(p0, s, k + 1)
RECURSIVE Pop(_, _)
Pop(h, p) == IF Len(h) > 1 /\ Cr(h[Len(h) - 1], h[Len(h)], p) <= 0 THEN Pop(SubSeq(h, 1, Len(h) - 1), p) ELSE h
RECURSIVE Scan(_, _, _)
Scan(h, s, k) == IF k > Len(s) THEN h ELSE Scan(Append(Pop(h, s[k]), s[k]), s, k + 1)
Hull(s) ==
  IF Len(s) = 1 \/ (Len(s) = 2 /\ s[1] # s[2]) THEN s
  ELSE LET p0 == s[Lowest(s)]
           k0 == Lowest(s)
           rest == SubSeq(s, 1, k0 - 1) \o SubSeq(s, k0 + 1, Len(s))
           f == <<p0>> \o Far(p0, Sorted(p0, rest), 1)
       IN IF Len(f) < 3 THEN IF f[2] = p0 THEN <<p0>> ELSE f
          ELSE Scan(<<f[1], f[2], f[3]>>, f, 4)
HullOK == IsHull2(Hull(pts), Set(pts))
=============================================================================
