------------------------------- MODULE PolyModel -------------------------------
(* The library's half-open crossing parity against the definition of inside    *)
(* (crossings of a ray that meets no vertex), which in turn does not depend on *)
(* the ray chosen, for every simple polygon on a grid and every query point of *)
(* the grid refined by two.                                                    *)
EXTENDS Geom, TLC
CONSTANTS Ext, Max
VARIABLE g
Pt == {<<2 * x, 2 * y>> : x \in 0..Ext, y \in 0..Ext}
Qs == (-1..2 * Ext + 1) \X (-1..2 * Ext + 1)
Init == g \in {s \in UNION {[1..n -> Pt] : n \in 3..Max} : Simple(s)}
Next == UNCHANGED g
HalfOpen(p) ==
  LET n == Len(g)
      X(k) == LET a == g[k] b == g[IF k = 1 THEN n ELSE k - 1] IN
              /\ (a[2] <= p[2] /\ p[2] < b[2]) \/ (b[2] <= p[2] /\ p[2] < a[2])
              /\ LET l == (p[1] - a[1]) * (b[2] - a[2])
                     r == (b[1] - a[1]) * (p[2] - a[2])
                 IN IF b[2] > a[2] THEN l < r ELSE l > r
  IN Odd({k \in 1..n : X(k)})
ParityOK == \A p \in Qs : OnEdge(g, p) \/ (HalfOpen(p) = Inside2(g, p, 100) /\ Inside2(g, p, 100) = InsideBy(g, p, <<-1, 97>>))
=============================================================================
