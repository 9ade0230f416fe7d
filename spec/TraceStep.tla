----------------------------- MODULE TraceStep -----------------------------
(* STEP export (E01): curves c[1..3] and surfaces s[1..2] written into one      *)
(* stream with a running identifier nx; the recorded text is already split into *)
(* entities and tokens.                                                         *)
EXTENDS BSurface, Step, TraceLog
VARIABLES sc, i, st
NoC == [set |-> FALSE]
Start == [c |-> <<NoC, NoC, NoC>>, s |-> <<NoC, NoC>>, nx |-> 1]
Acc(s) == [ok |-> TRUE, why |-> "", st |-> s]
Rej(w) == [ok |-> FALSE, why |-> w, st |-> Start]
If(b, s, w) == IF b THEN Acc(s) ELSE Rej(w)
With(x, Op(_)) == CHOOSE r \in {Op(y) : y \in {x}} : TRUE
HN(cp) == [k \in 1..Len(cp) |-> HNorm(cp[k])]
IsInt(tok) == tok.t = "n" /\ ~tok.r /\ tok.v[1] = 0 /\ tok.v[3] = 0
IsReal(tok, num, den) == tok.t = "n" /\ tok.r /\ NearND(tok.v, num, den, Tol)
\* the CARTESIAN_POINT tok refers to is the Euclidean point of the homogeneous point h
IsPoint(es, tok, h) ==
  /\ IsRefTo(es, tok, "CARTESIAN_POINT")
  /\ LET a == Ent(es, tok.v).a IN /\ Len(a) = 2 /\ a[1].t = "s" /\ a[2].t = "l" /\ Len(a[2].v) = 3
                                  /\ \A j \in 1..3 : IsReal(a[2].v[j], h[j], h[4])
RECURSIVE Expand(_, _)
Expand(m, k) == IF m = <<>> THEN <<>> ELSE [j \in 1..m[1].v[2] |-> k[1]] \o Expand(Tail(m), Tail(k))
\* multiplicities and distinct knots stand for the knot vector kn
IsKnots(m, k, kn) ==
  /\ IsList(m, IsInt) /\ k.t = "l" /\ Len(m.v) = Len(k.v) /\ \A j \in 1..Len(m.v) : m.v[j].v[2] > 0
  /\ With(Expand(m.v, k.v), LAMBDA x : Len(x) = Len(kn) /\ \A j \in 1..Len(kn) : IsReal(x[j], kn[j][1], kn[j][2]))
  /\ Len(k.v) = Len(DistinctKnots(kn))
IsNum(tok, n) == IsInt(tok) /\ tok.v[2] = n
Flags(a, ks) == \A k \in ks : IsEnum(a[k], {"T", "F", "U"})
WhyCurve(es, id, c) ==
  IF ~Has(es, id, "RATIONAL_B_SPLINE_CURVE_WITH_KNOTS") THEN "no curve entity"
  ELSE LET a == Ent(es, id).a IN
  IF Len(a) # 10 THEN "curve entity: arguments"
  ELSE IF ~(a[1].t = "s" /\ IsNum(a[2], c.deg)) THEN "curve entity: degree"
  ELSE IF ~(a[3].t = "l" /\ Len(a[3].v) = Len(c.cp) /\ \A k \in 1..Len(c.cp) : IsPoint(es, a[3].v[k], c.cp[k])) THEN "curve entity: control points"
  ELSE IF ~(a[4].t = "e" /\ a[9].t = "e" /\ Flags(a, {5, 6})) THEN "curve entity: form"
  ELSE IF ~IsKnots(a[7], a[8], c.kn) THEN "curve entity: knots"
  ELSE IF ~(a[10].t = "l" /\ Len(a[10].v) = Len(c.cp) /\ \A k \in 1..Len(c.cp) : IsReal(a[10].v[k], c.cp[k][4], c.cp[k][5])) THEN "curve entity: weights"
  ELSE ""
Grid(tok, s, T(_, _)) == tok.t = "l" /\ Len(tok.v) = NU(s) /\ \A p \in 1..NU(s) : tok.v[p].t = "l" /\ Len(tok.v[p].v) = NV(s)
                         /\ \A r \in 1..NV(s) : T(tok.v[p].v[r], s.cp[p][r])
WhySurf(es, id, s) ==
  IF ~Has(es, id, "RATIONAL_B_SPLINE_SURFACE_WITH_KNOTS") THEN "no surface entity"
  ELSE LET a == Ent(es, id).a IN
  IF Len(a) # 14 THEN "surface entity: arguments"
  ELSE IF ~(a[1].t = "s" /\ IsNum(a[2], s.du) /\ IsNum(a[3], s.dv)) THEN "surface entity: degrees"
  ELSE IF ~Grid(a[4], s, LAMBDA tok, h : IsPoint(es, tok, h)) THEN "surface entity: control points"
  ELSE IF ~(a[5].t = "e" /\ a[13].t = "e" /\ Flags(a, {6, 7, 8})) THEN "surface entity: form"
  ELSE IF ~(IsKnots(a[9], a[10], s.ku) /\ IsKnots(a[11], a[12], s.kv)) THEN "surface entity: knots"
  ELSE IF ~Grid(a[14], s, LAMBDA tok, h : IsReal(tok, h[4], h[5])) THEN "surface entity: weights"
  ELSE IF ~SheetOk(es, id) THEN "topology of the face"
  ELSE With(<<LoopOf(es), <<IsoU(s, ULo(s)), IsoU(s, UHi(s)), IsoV(s, VLo(s)), IsoV(s, VHi(s))>>>>, LAMBDA D :
       LET L == D[1]  B == D[2]
           Fits(x, c) == WhyCurve(es, x.a[4].v, c) = ""
           Ends(x, c) == LET f == x.a[5].v = "T" IN
                         /\ IsPoint(es, Ent(es, x.a[IF f THEN 2 ELSE 3].v).a[2], c.cp[1])
                         /\ IsPoint(es, Ent(es, x.a[IF f THEN 3 ELSE 2].v).a[2], c.cp[Len(c.cp)])
       IN IF Len(L) # 4 THEN "number of edges"
          ELSE IF \E b \in 1..4 : \A k \in 1..4 : ~Fits(L[k], B[b]) THEN "boundary curve missing"
          ELSE IF \E k \in 1..4 : \A b \in 1..4 : ~Fits(L[k], B[b]) THEN "edge is not along a boundary curve"
          ELSE IF \E k \in 1..4 : \A b \in 1..4 : ~(Fits(L[k], B[b]) /\ Ends(L[k], B[b])) THEN "edge does not join the ends of its curve"
          ELSE "")
\* one export: o.ents emitted while the counter went from o.id0 to o.id1
WhyExport(o, lo, why(_)) ==
  IF o.bad # "" THEN "malformed: " \o o.bad
  ELSE IF ~(o.id0 = lo /\ Increasing(o.ents, lo)) THEN "identifiers"
  ELSE IF ~(\A k \in 1..Len(o.ents) : o.ents[k].id < o.id1) THEN "counter does not pass the last identifier"
  ELSE IF ~Resolved(o.ents) THEN "dangling reference"
  ELSE why(o.ret)
Sections == <<"ISO-10303-21", "HEADER", "FILE_DESCRIPTION", "FILE_NAME", "FILE_SCHEMA", "ENDSEC", "DATA", "#", "ENDSEC", "END-ISO-10303-21">>
SurfaceEntity(es) == LET S == Named(es, "RATIONAL_B_SPLINE_SURFACE_WITH_KNOTS") IN IF Len(S) = 1 THEN S[1].id ELSE -1
MStep(s, e) ==
  LET o == e.obs IN
  IF e.op = "file" /\ e.how \in {"missing", "dir"} THEN If(o.ok = 0 /\ o.ex = "runtime_error", s, "a file that cannot be opened is not reported")
  ELSE IF o.ok = 0 THEN Rej(e.op \o " failed")
  ELSE
  CASE e.op = "cnew" -> With([set |-> TRUE, deg |-> e.deg, kn |-> e.kn, cp |-> HN(e.cp), per |-> FALSE], LAMBDA c : Acc([s EXCEPT !.c[e.k] = c]))
    [] e.op = "snew" -> With([set |-> TRUE, du |-> e.du, dv |-> e.dv, ku |-> e.ku, kv |-> e.kv, cp |-> [a \in 1..Len(e.cp) |-> HN(e.cp[a])]], LAMBDA c : Acc([s EXCEPT !.s[e.k] = c]))
    [] e.op = "open" -> Acc([s EXCEPT !.nx = e.id])
    [] e.op = "cex" -> With(WhyExport(o, s.nx, LAMBDA id : WhyCurve(o.ents, id, s.c[e.k])), LAMBDA w : IF w = "" THEN Acc([s EXCEPT !.nx = o.id1]) ELSE Rej(w))
    [] e.op = "sex" -> With(WhyExport(o, s.nx, LAMBDA id : WhySurf(o.ents, id, s.s[e.k])), LAMBDA w : IF w = "" THEN Acc([s EXCEPT !.nx = o.id1]) ELSE Rej(w))
    [] e.op = "file" ->
        IF o.bad # "" THEN Rej("malformed: " \o o.bad)
        ELSE IF o.hd # Sections THEN Rej("file structure")
        ELSE IF ~(Increasing(o.ents, 1) /\ Resolved(o.ents)) THEN Rej("file: identifiers or references")
        ELSE With(WhySurf(o.ents, SurfaceEntity(o.ents), s.s[e.k]), LAMBDA w : IF w = "" THEN Acc(s) ELSE Rej(w))
    [] OTHER -> Rej("BAD SCENARIO: op")
TR == INSTANCE TraceRun WITH TLog <- Log, Start <- Start, Step <- MStep
Init == TR!Init
Next == TR!Next
=============================================================================
