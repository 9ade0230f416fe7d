-------------------------------- MODULE Step --------------------------------
(* The exchange structure (ISO 10303-21): entities [id, nm, a] with argument   *)
(* tokens [t |-> "r", v |-> id] (reference), "n" (number), "s" (string), "e"   *)
(* (enumeration), "u" (unset or derived), "l" (list).                          *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE RefsOf(_)
RefsOf(tok) == IF tok.t = "r" THEN {tok.v}
               ELSE IF tok.t = "l" THEN UNION {RefsOf(tok.v[k]) : k \in 1..Len(tok.v)} ELSE {}
Refs(e) == UNION {RefsOf(e.a[k]) : k \in 1..Len(e.a)}
Ids(es) == {es[k].id : k \in 1..Len(es)}
Increasing(es, lo) == \A k \in 1..Len(es) : es[k].id >= lo /\ (k > 1 => es[k - 1].id < es[k].id)
Resolved(es) == \A k \in 1..Len(es) : Refs(es[k]) \subseteq Ids(es)
Has(es, id, nm) == \E k \in 1..Len(es) : es[k].id = id /\ es[k].nm = nm
Ent(es, id) == es[CHOOSE k \in 1..Len(es) : es[k].id = id]
Named(es, nm) == SelectSeq(es, LAMBDA e : e.nm = nm)
IsList(tok, T(_)) == tok.t = "l" /\ \A k \in 1..Len(tok.v) : T(tok.v[k])
IsRefTo(es, tok, nm) == tok.t = "r" /\ Has(es, tok.v, nm)
IsEnum(tok, S) == tok.t = "e" /\ tok.v \in S
Bool == {"T", "F"}
\* a boundary: the face's outer bound is a closed loop of oriented edges, every edge joins two vertices
EdgeOk(es, e) == /\ Len(e.a) = 5 /\ IsRefTo(es, e.a[2], "VERTEX_POINT") /\ IsRefTo(es, e.a[3], "VERTEX_POINT")
                 /\ IsRefTo(es, e.a[4], "RATIONAL_B_SPLINE_CURVE_WITH_KNOTS") /\ IsEnum(e.a[5], Bool)
OrientedOk(es, o) == Len(o.a) = 5 /\ o.a[2].t = "u" /\ o.a[3].t = "u" /\ IsRefTo(es, o.a[4], "EDGE_CURVE") /\ IsEnum(o.a[5], Bool)
From(es, o) == LET e == Ent(es, o.a[4].v) IN (IF o.a[5].v = "T" THEN e.a[2] ELSE e.a[3]).v
To(es, o)   == LET e == Ent(es, o.a[4].v) IN (IF o.a[5].v = "T" THEN e.a[3] ELSE e.a[2]).v
LoopOk(es, l) ==
  /\ Len(l.a) = 2 /\ IsList(l.a[2], LAMBDA x : IsRefTo(es, x, "ORIENTED_EDGE")) /\ Len(l.a[2].v) > 0
  /\ LET L == l.a[2].v  n == Len(L) IN
     /\ \A k \in 1..n : OrientedOk(es, Ent(es, L[k].v))
     /\ \A k \in 1..n : To(es, Ent(es, L[k].v)) = From(es, Ent(es, L[(k % n) + 1].v))
     /\ Cardinality({Ent(es, L[k].v).a[4].v : k \in 1..n}) = n
BoundOk(es, b) == Len(b.a) = 3 /\ IsRefTo(es, b.a[2], "EDGE_LOOP") /\ IsEnum(b.a[3], Bool) /\ LoopOk(es, Ent(es, b.a[2].v))
VertexOk(es, v) == Len(v.a) = 2 /\ IsRefTo(es, v.a[2], "CARTESIAN_POINT")
FaceOk(es, f, surf) ==
  /\ Len(f.a) = 4 /\ IsList(f.a[2], LAMBDA x : IsRefTo(es, x, "FACE_OUTER_BOUND")) /\ Len(f.a[2].v) = 1
  /\ f.a[3].t = "r" /\ f.a[3].v = surf /\ IsEnum(f.a[4], Bool)
  /\ BoundOk(es, Ent(es, f.a[2].v[1].v))
\* the topology of an exported sheet whose B-spline entity has identifier surf
SheetOk(es, surf) ==
  /\ \A e \in {es[k] : k \in 1..Len(es)} : (e.nm = "EDGE_CURVE" => EdgeOk(es, e)) /\ (e.nm = "VERTEX_POINT" => VertexOk(es, e))
  /\ Len(Named(es, "ADVANCED_FACE")) = 1 /\ FaceOk(es, Named(es, "ADVANCED_FACE")[1], surf)
  /\ LET f == Named(es, "ADVANCED_FACE")[1].id IN
     \E k, m \in 1..Len(es) :
       /\ es[k].nm = "OPEN_SHELL" /\ Len(es[k].a) = 2 /\ RefsOf(es[k].a[2]) = {f}
       /\ es[m].nm = "SHELL_BASED_SURFACE_MODEL" /\ Len(es[m].a) = 2 /\ RefsOf(es[m].a[2]) = {es[k].id}
\* the edges around the face
LoopOf(es) == LET f == Named(es, "ADVANCED_FACE")[1]
                  l == Ent(es, Ent(es, f.a[2].v[1].v).a[2].v)
              IN [k \in 1..Len(l.a[2].v) |-> Ent(es, Ent(es, l.a[2].v[k].v).a[4].v)]
=============================================================================
