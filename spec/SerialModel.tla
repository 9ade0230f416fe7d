----------------------------- MODULE SerialModel -----------------------------
(* Design model of serialisation: values written one after the other, length    *)
(* prefixed where they vary in length; a reader that knows the kinds gets the   *)
(* same values back and stops exactly at the end of each.                       *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxVals
VARIABLES vals, w, buf, pos, got
Lists(S, n) == UNION {[1..m -> S] : m \in 0..n}
Kinds == {"num", "list", "curve"}
Values == [k : {"num"}, v : 0..1] \cup [k : {"list"}, v : Lists(0..1, 2)]
          \cup [k : {"curve"}, v : [deg : {1}, per : 0..1, cp : Lists({<<0, 1>>, <<1, 1>>}, 1), kn : Lists({0, 1}, 1)]]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Enc(x) == CASE x.k = "num" -> <<x.v>>
            [] x.k = "list" -> <<Len(x.v)>> \o x.v
            [] OTHER -> <<x.v.deg, x.v.per, Len(x.v.cp)>> \o Flat(x.v.cp) \o <<Len(x.v.kn)>> \o x.v.kn
\* reading at p: <<value, next position>>
Dec(k, p) == CASE k = "num" -> <<[k |-> k, v |-> buf[p]], p + 1>>
               [] k = "list" -> <<[k |-> k, v |-> SubSeq(buf, p + 1, p + buf[p])], p + 1 + buf[p]>>
               [] OTHER -> LET n == buf[p + 2]
                               q == p + 3 + 2 * n
                           IN <<[k |-> k, v |-> [deg |-> buf[p], per |-> buf[p + 1], cp |-> [j \in 1..n |-> <<buf[p + 1 + 2 * j], buf[p + 2 + 2 * j]>>], kn |-> SubSeq(buf, q + 1, q + buf[q])]], q + 1 + buf[q]>>
Init == vals \in Lists(Values, MaxVals) /\ w = 0 /\ buf = <<>> /\ pos = 1 /\ got = <<>>
Write == w < Len(vals) /\ w' = w + 1 /\ buf' = buf \o Enc(vals[w + 1]) /\ UNCHANGED <<vals, pos, got>>
Read == w = Len(vals) /\ Len(got) < Len(vals)
        /\ LET d == Dec(vals[Len(got) + 1].k, pos) IN got' = Append(got, d[1]) /\ pos' = d[2]
        /\ UNCHANGED <<vals, w, buf>>
Next == Write \/ Read
RoundTrip == /\ got = SubSeq(vals, 1, Len(got))
             /\ (w = Len(vals) /\ Len(got) = Len(vals)) => pos = Len(buf) + 1
=============================================================================
