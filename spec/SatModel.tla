------------------------------- MODULE SatModel -------------------------------
(* The separating-axis procedure (edge normals of both rings, and the direction *)
(* of a segment) against disjointness, for points, segments and triangles.     *)
EXTENDS Geom, TLC
CONSTANTS Ext, Shift
VARIABLES a, b
Grid(n) == (0..n) \X (0..n)
Rings(n) == {<<p>> : p \in Grid(n)} \cup {x \in Grid(n) \X Grid(n) : x[1] # x[2]}
            \cup {x \in Grid(n) \X Grid(n) \X Grid(n) : Cr(x[1], x[2], x[3]) # 0}
Init == a \in Rings(Ext) /\ b \in Rings(Shift)
Next == UNCHANGED <<a, b>>
Axes(g) == IF Len(g) = 1 THEN {}
           ELSE {LET d == Sub2(g[Nx(k, Len(g))], g[k]) IN <<d[2], -d[1]>> : k \in 1..Len(g)}
                \cup (IF Len(g) = 2 THEN {Sub2(g[2], g[1])} ELSE {})
Gap(n, g, h) == \A p \in Set(g), q \in Set(h) : Dt2(n, p) < Dt2(n, q)
Sat == IF Len(a) = 1 /\ Len(b) = 1 THEN a # b ELSE \E n \in Axes(a) \cup Axes(b) : Gap(n, a, b) \/ Gap(n, b, a)
SatOK == Sat <=> ~Share2(a, b)
=============================================================================
