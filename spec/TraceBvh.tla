------------------------------- MODULE TraceBvh -------------------------------
(* Transition relation of bounding volume hierarchies (V01): the state is the  *)
(* list of boxes held by each of four hierarchies.  An object is identified by *)
(* its position in its list.  Coordinates are in units of 1/e.den.            *)
EXTENDS Boxes, TLC, TraceLog
VARIABLES sc, i, st
Start == [k \in 1..4 |-> <<>>]
Rej(w) == [ok |-> FALSE, why |-> w, st |-> Start]
Acc(s) == [ok |-> TRUE, why |-> "", st |-> s]
If(c, s, w) == IF c THEN Acc(s) ELSE Rej(w)
Set(q) == {q[k] : k \in 1..Len(q)}
Ids(l) == [k \in 1..Len(l) |-> k]
Holds(l, o) ==         \* the observed tree: node boxes with children, and leaf objects
  /\ BagOf(o.ids) = BagOf(Ids(l))
  /\ \A k \in 1..Len(o.nodes) :
       LET d == o.nodes[k]
           U == LET RECURSIVE V(_) V(q) == IF q = <<>> THEN Empty ELSE Join(l[Head(q)], V(Tail(q))) IN V(d.under)
       IN [lo |-> d.lo, hi |-> d.hi] = U
Query(l, b, r) == BagOf(r) = [k \in {q \in 1..Len(l) : Meet(l[q], b)} |-> 1]
PairsOf(l, m, C(_, _)) == {x \in (1..Len(l)) \X (1..Len(m)) : C(l[x[1]], m[x[2]])}
BStep(s, e) ==
  LET o == e.obs IN
  IF o.ok = 0 THEN Rej(e.op \o " failed")
  ELSE
  CASE e.op = "unit" -> Acc(s)
    [] e.op = "build" -> LET l == e.boxes IN If(Holds(l, o), [s EXCEPT ![e.t] = l], "hierarchy holds each object once under tight boxes")
    [] e.op = "copy" -> If(Holds(s[e.t], o), [s EXCEPT ![e.l] = s[e.t]], "copied hierarchy")
    [] e.op = "graft" -> LET l == s[e.t] \o s[e.l] IN If(Holds(l, o), [s EXCEPT ![e.m] = l], "hierarchy put together from two")
    [] e.op = "state" -> If(Holds(s[e.t], o), s, "hierarchy unchanged")
    [] e.op = "query" -> If(Query(s[e.t], [lo |-> e.lo, hi |-> e.hi], o.r), s, "objects meeting the query box")
    [] e.op = "point" -> If(Query(s[e.t], PointBox(e.p), o.r), s, "objects containing the point")
    [] e.op = "isect" ->    \* the recursive form ignores overlaps of volume below 10^-6
         LET l == s[e.t]  m == s[e.l]
             touch == PairsOf(l, m, Meet)
             deep == {x \in touch : Volume(Common(l[x[1]], m[x[2]])) > e.thr}
         IN IF BagOf(o.it) # [x \in touch |-> 1] THEN Rej("pairs of the iterative intersection")
            ELSE If(BagOf(o.rec) = [x \in deep |-> 1], s, "pairs of the recursive intersection")
    [] OTHER -> Rej("unknown event")
TR == INSTANCE TraceRun WITH TLog <- Log, Start <- Start, Step <- BStep
Init == TR!Init
Next == TR!Next
=============================================================================
