------------------------------- MODULE TraceBox -------------------------------
(* Transition relation of boxes (A01): the state is the box held by each of    *)
(* six slots; coordinates in units of 1/8, volumes in units of 1/512.          *)
EXTENDS Boxes, TLC, TraceLog
VARIABLES sc, i, st
Start == [k \in 1..6 |-> Empty]
Rej(w) == [ok |-> FALSE, why |-> w, st |-> Start]
Acc(s) == [ok |-> TRUE, why |-> "", st |-> s]
If(c, s, w) == IF c THEN Acc(s) ELSE Rej(w)
Is(o, b) == IF IsEmpty(b) THEN o.inf = 1 ELSE o.inf = 0 /\ o.lo = b.lo /\ o.hi = b.hi
\* every slot is observed after every operation
To(s, o, w) == If(\A k \in 1..6 : Is(o.b[k], s[k]), s, w)
Bounds(pts) == LET RECURSIVE V(_) V(q) == IF q = <<>> THEN Empty ELSE Join(PointBox(Head(q)), V(Tail(q))) IN V(pts)
B(x) == IF x THEN 1 ELSE 0
XStep(s, e) ==
  LET o == e.obs IN
  IF o.ok = 0 THEN Rej(e.op \o " failed")
  ELSE
  CASE e.op = "set" -> To([s EXCEPT ![e.k] = [lo |-> e.lo, hi |-> e.hi]], o, "box from corners")
    [] e.op = "empty" -> To([s EXCEPT ![e.k] = Empty], o, "default box")
    [] e.op = "points" -> To([s EXCEPT ![e.k] = Bounds(e.pts)], o, "box of points")
    [] e.op = "expand" -> To([s EXCEPT ![e.k] = Join(s[e.k], PointBox(e.p))], o, "box expanded by a point")
    [] e.op = "merge" -> To([s EXCEPT ![e.m] = Join(s[e.k], s[e.l])], o, "merged box")
    [] e.op = "meet" -> If(o.r = B(Meet(s[e.k], s[e.l])) /\ o.r2 = o.r, s, "boxes intersect")
    [] e.op = "common" ->
         IF Meet(s[e.k], s[e.l]) THEN IF o.r = 1 THEN To([s EXCEPT ![e.m] = Common(s[e.k], s[e.l])], o, "intersection box") ELSE Rej("intersection not found")
         ELSE If(o.r = 0, s, "intersection of boxes that do not meet")
    [] e.op = "volume" -> If(o.v = Volume(s[e.k]), s, "volume")
    [] OTHER -> Rej("unknown event")
TR == INSTANCE TraceRun WITH TLog <- Log, Start <- Start, Step <- XStep
Init == TR!Init
Next == TR!Next
=============================================================================
