------------------------------- MODULE TraceKd -------------------------------
(* Transition relation of the k-d tree (T01): the state is the multiset of     *)
(* stored points of each of two trees.                                         *)
EXTENDS Boxes, TLC, TraceLog
VARIABLES sc, i, st
NoBag == [x \in {} |-> 0]
Start == <<NoBag, NoBag>>
Rej(w) == [ok |-> FALSE, why |-> w, st |-> Start]
Acc(s) == [ok |-> TRUE, why |-> "", st |-> s]
If(c, s, w) == IF c THEN Acc(s) ELSE Rej(w)
Sized(s, t, o, w) == IF o.ok = 0 THEN Rej(w \o " failed") ELSE If(o.n = BagSize(s[t]) /\ o.empty = (IF BagSize(s[t]) = 0 THEN 1 ELSE 0), s, w \o ": size")
KStep(s, e) ==
  LET o == e.obs  t == e.t IN
  CASE e.op = "build" -> Sized([s EXCEPT ![t] = BagOf(e.pts)], t, o, "build")
    [] e.op = "insert" -> Sized([s EXCEPT ![t] = BagAdd(s[t], e.p)], t, o, "insert")
    [] e.op = "range" -> IF o.ok = 0 THEN Rej("range search failed")
         ELSE If(BagOf(o.r) = [x \in {y \in DOMAIN s[t] : Has([lo |-> e.lo, hi |-> e.hi], y)} |-> s[t][x]], s, "points in range")
    [] e.op = "near" ->
         IF DOMAIN s[t] = {} THEN If(o.ok = 0 /\ o.ex \in {"invalid_argument", "out_of_range", "runtime_error", "exception"}, s, "nearest in an empty tree")
         ELSE IF o.ok = 0 THEN Rej("nearest neighbour failed")
         ELSE If(o.p \in DOMAIN s[t] /\ \A y \in DOMAIN s[t] : D2(e.p, o.p) <= D2(e.p, y), s, "nearest neighbour")
    [] OTHER -> Rej("unknown event")
TR == INSTANCE TraceRun WITH TLog <- Log, Start <- Start, Step <- KStep
Init == TR!Init
Next == TR!Next
=============================================================================
