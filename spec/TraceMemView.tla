----------------------------- MODULE TraceMemView -----------------------------
(* Transition relation of array views (M01, M02), resolved by recorded events. *)
(* State: the contents of the arrays and the view held by each of six slots.   *)
(* Every observation lists the shape and all elements of every live view.      *)
EXTENDS MemView, TLC, TraceLog
VARIABLES sc, i, st
None == [base |-> 0, shape |-> <<>>, pos |-> <<>>]
Start == [mem |-> <<>>, v |-> [k \in 1..6 |-> None]]
Rej(w) == [ok |-> FALSE, why |-> w, st |-> Start]
Acc(s) == [ok |-> TRUE, why |-> "", st |-> s]
If(b, s, w) == IF b THEN Acc(s) ELSE Rej(w)
Refused(o) == o.ok = 0 /\ o.ex \in {"invalid_argument", "out_of_range", "runtime_error", "exception"}
El(s, k) == [q \in 1..Len(s.v[k].pos) |-> s.mem[s.v[k].base][s.v[k].pos[q]]]
Sees(s, o) == \A k \in 1..6 : IF s.v[k].base = 0 THEN o.live[k] = 0
                              ELSE o.live[k] = 1 /\ o.shape[k] = s.v[k].shape /\ o.el[k] = El(s, k)
\* the operation must succeed and lead to state s
To(s, o, w) == IF o.ok = 0 THEN Rej(w \o ": refused or failed") ELSE If(Sees(s, o), s, w \o ": shape or elements of the views")
MStep(s, e) ==
  LET o == e.obs
      Put(x) == [s EXCEPT !.v[e.l] = x]
      Fresh(q) == [s EXCEPT !.mem = Append(s.mem, q)]
  IN
  CASE e.op = "new" -> LET t == Fresh(e.data) IN To([t EXCEPT !.v[e.l] = FullView(Len(t.mem), e.shape)], o, "new array")
    [] e.op = "slice" -> IF BadSlices(s.v[e.k], e.sl) THEN If(Refused(o), s, "invalid slice accepted")
                         ELSE To(Put(SliceView(s.v[e.k], e.sl)), o, "slice")
    [] e.op = "index" -> IF Len(s.v[e.k].shape) = 0 \/ (Len(s.v[e.k].shape) > 0 /\ (e.idx < 0 \/ e.idx >= s.v[e.k].shape[1])) THEN If(Refused(o), s, "invalid index accepted")
                         ELSE To(Put(SliceView(s.v[e.k], <<[Full EXCEPT !.i = TRUE, !.idx = e.idx]>>)), o, "first-dimension index")
    [] e.op \in {"get", "set"} ->
         LET x == s.v[e.k]  bad == Len(e.idx) # Len(x.shape) \/ \E q \in 1..Len(e.idx) : e.idx[q] < 0 \/ e.idx[q] >= x.shape[q]
         IN IF bad THEN If(Refused(o), s, "invalid element access accepted")
            ELSE IF o.ok = 0 THEN Rej("element access failed")
            ELSE IF o.val # s.mem[x.base][x.pos[At(x, e.idx)]] THEN Rej("element value")
            ELSE IF e.op = "get" THEN Acc(s)
            ELSE To([s EXCEPT !.mem[x.base][x.pos[At(x, e.idx)]] = e.val], o, "write through a view")
    [] e.op = "range" -> If(o.ok = 1 /\ (Contiguous(s.v[e.k]) => o.r = El(s, e.k)), s, "begin/end of a contiguous view")
    [] e.op = "size" -> If(o.ok = 1 /\ o.n = Len(s.v[e.k].pos), s, "element count")
    [] e.op = "copy" ->
         LET t == Fresh(El(s, e.k)) IN To([t EXCEPT !.v[e.l] = FullView(Len(t.mem), s.v[e.k].shape)], o, "copy")
    [] e.op = "reshape" ->
         LET x == s.v[e.k]
         IN IF Prod(e.shape) # Len(x.pos) THEN If(Refused(o), s, "reshape to another size accepted")
            ELSE IF ~Contiguous(x) /\ Refused(o) THEN Acc(s)
            ELSE To([s EXCEPT !.v[e.k].shape = e.shape], o, "reshape")
    [] e.op = "round" ->      \* serialise and deserialise into slot l
         LET t == Fresh(El(s, e.k)) IN To([t EXCEPT !.v[e.l] = FullView(Len(t.mem), s.v[e.k].shape)], o, "serialised form")
    [] e.op = "trunc" -> If(o.ok = 1 /\ o.acc = <<>>, s, "truncated buffer accepted")
    [] e.op = "wrongtype" -> If(Refused(o), s, "buffer of another type accepted")
    [] e.op = "typed" ->      \* the same elements in an array of another element type; r, c, tr: with every axis mirrored
         LET el == El(s, e.k)  rv == [q \in 1..Len(el) |-> el[Len(el) + 1 - q]]
         IN If(o.ok = 1 /\ o.f = el /\ o.tf = el /\ o.r = rv /\ o.c = rv /\ o.tr = rv /\ o.n = Len(el), s, "elements of another type")
    [] e.op = "print" -> If(o.ok = 1 /\ (Len(El(s, e.k)) <= 10 => o.r = El(s, e.k)) /\ Len(o.r) <= 10
                            /\ (\A q \in 1..Len(o.r) : o.r[q] = El(s, e.k)[q]), s, "printed preview")
    [] OTHER -> Rej("unknown event " \o e.op)
TR == INSTANCE TraceRun WITH TLog <- Log, Start <- Start, Step <- MStep
Init == TR!Init
Next == TR!Next
=============================================================================
