----------------------------- MODULE StepModel -----------------------------
(* Exporting a history of curves and sheets into one exchange structure with a *)
(* running identifier: every entity is emitted by one transition.              *)
EXTENDS Step, TLC
CONSTANTS MaxN, Exports, Starts
VARIABLES out, ctr, base, job, pc, done
vars == <<out, ctr, base, job, pc, done>>
r(k) == [t |-> "r", v |-> k]
l(s) == [t |-> "l", v |-> s]
n(x) == [t |-> "n", v |-> x]
str == [t |-> "s"]
u == [t |-> "u"]
e(x) == [t |-> "e", v |-> x]
E(nm, a) == [nm |-> nm, a |-> a]
\* a curve of control points pts (pairs, standing for positions) whose first entity has local number k
Curve(pts, k) == [j \in 1..Len(pts) |-> E("CARTESIAN_POINT", <<str, l(<<n(pts[j][1]), n(pts[j][2])>>)>>)]
                 \o <<E("RATIONAL_B_SPLINE_CURVE_WITH_KNOTS", <<str, n(1), l([j \in 1..Len(pts) |-> r(k + j - 1)])>>)>>
Line(nn, F(_)) == [j \in 1..nn |-> F(j)]
\* a sheet with corners (1,1), (a,1), (a,b), (1,b); side curves: u = 1, u = a (along v), v = 1, v = b (along u)
Sheet(a, b) ==
  LET P(i, j) == <<i, j>>
      net == [k \in 1..(a * b) |-> E("CARTESIAN_POINT", <<str, l(<<n(((k - 1) \div b) + 1), n(((k - 1) % b) + 1)>>)>>)]
      surf == a * b + 1
      s1 == surf + 1          c1 == s1 + b
      s2 == c1 + 1            c2 == s2 + b
      s3 == c2 + 1            c3 == s3 + a
      s4 == c3 + 1            c4 == s4 + a
      v == c4 + 1
      V(k) == v + 2 * k - 1
      vert == [k \in 1..8 |-> IF (k % 2) = 1
                 THEN E("CARTESIAN_POINT", <<str, l(<<n(IF k \in {3, 5} THEN a ELSE 1), n(IF k \in {5, 7} THEN b ELSE 1)>>)>>)
                 ELSE E("VERTEX_POINT", <<str, r(v + k - 2)>>)]
      ed == v + 8
      EC(p, q, c) == E("EDGE_CURVE", <<str, r(V(p)), r(V(q)), r(c), e("T")>>)
      OE(k, s) == E("ORIENTED_EDGE", <<str, u, u, r(k), e(s)>>)
      edges == <<EC(1, 2, c3), OE(ed, "T"), EC(2, 3, c2), OE(ed + 2, "T"), EC(4, 3, c4), OE(ed + 4, "F"), EC(1, 4, c1), OE(ed + 6, "F")>>
      lp == ed + 8
  IN net \o <<E("RATIONAL_B_SPLINE_SURFACE_WITH_KNOTS", <<str, n(a - 1), n(b - 1), l([i \in 1..a |-> l([j \in 1..b |-> r((i - 1) * b + j)])])>>)>>
     \o Curve(Line(b, LAMBDA j : P(1, j)), s1) \o Curve(Line(b, LAMBDA j : P(a, j)), s2)
     \o Curve(Line(a, LAMBDA i : P(i, 1)), s3) \o Curve(Line(a, LAMBDA i : P(i, b)), s4)
     \o vert \o edges
     \o <<E("EDGE_LOOP", <<str, l([k \in 1..4 |-> r(ed + 2 * k - 1)])>>), E("FACE_OUTER_BOUND", <<str, r(lp), e("T")>>),
          E("ADVANCED_FACE", <<str, l(<<r(lp + 1)>>), r(surf), e("T")>>), E("OPEN_SHELL", <<str, l(<<r(lp + 2)>>)>>),
          E("SHELL_BASED_SURFACE_MODEL", <<str, l(<<r(lp + 3)>>)>>)>>
Jobs == [k : {"curve"}, a : 2..MaxN, b : {0}] \cup [k : {"sheet"}, a : 2..MaxN, b : 2..MaxN]
Text(j) == IF j.k = "curve" THEN Curve(Line(j.a, LAMBDA x : <<x, 0>>), 1) ELSE Sheet(j.a, j.b)
RECURSIVE Shift(_, _)
Shift(tok, d) == IF tok.t = "r" THEN r(tok.v + d) ELSE IF tok.t = "l" THEN l([k \in 1..Len(tok.v) |-> Shift(tok.v[k], d)]) ELSE tok
Init == out = <<>> /\ ctr \in Starts /\ base = ctr /\ job = <<>> /\ pc = 0 /\ done = <<>>
Begin == /\ pc = 0 /\ Len(done) < Exports
         /\ \E j \in Jobs : job' = Text(j) /\ base' = ctr /\ pc' = 1
         /\ UNCHANGED <<out, ctr, done>>
Emit == /\ pc > 0 /\ pc <= Len(job)
        /\ LET t == job[pc] IN out' = Append(out, [id |-> ctr, nm |-> t.nm, a |-> [k \in 1..Len(t.a) |-> Shift(t.a[k], base - 1)]])
        /\ ctr' = ctr + 1 /\ pc' = pc + 1 /\ UNCHANGED <<base, job, done>>
Finish == /\ pc > Len(job) /\ pc > 0
          /\ done' = Append(done, [lo |-> base, hi |-> ctr - 1, n |-> Len(job)]) /\ pc' = 0 /\ job' = <<>>
          /\ UNCHANGED <<out, ctr, base>>
Next == Begin \/ Emit \/ Finish
Spec == Init /\ [][Next]_vars
\* the entities of one export
Part(d) == SelectSeq(out, LAMBDA x : x.id >= d.lo /\ x.id <= d.hi)
InvIds == Increasing(out, 0) /\ Ids(out) \subseteq 0..(ctr - 1)
InvParts == pc = 0 => \A k \in 1..Len(done) : /\ Len(Part(done[k])) = done[k].n /\ Resolved(Part(done[k]))
                                              /\ (k > 1 => done[k - 1].hi < done[k].lo)
Pos(es, id) == Ent(es, id).a[2].v
CurveEnds(es, c) == LET L == Ent(es, c).a[3].v IN <<Pos(es, L[1].v), Pos(es, L[Len(L)].v)>>
InvSheets == pc = 0 => \A k \in 1..Len(done) :
  LET es == Part(done[k])  S == Named(es, "RATIONAL_B_SPLINE_SURFACE_WITH_KNOTS") IN
  Len(S) = 1 =>
    /\ SheetOk(es, S[1].id)
    /\ \A j \in 1..4 : LET x == LoopOf(es)[j] IN
         CurveEnds(es, x.a[4].v) = <<Pos(es, Ent(es, x.a[2].v).a[2].v), Pos(es, Ent(es, x.a[3].v).a[2].v)>>
=============================================================================
