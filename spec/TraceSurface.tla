----------------------------- MODULE TraceSurface -----------------------------
(* Transition relation of the NURBS surface API (S01-S06), resolved by        *)
(* recorded events; the state is the surface held by each of six slots.      *)
EXTENDS BSurface, TLC, TraceLog
VARIABLES sc, i, st

NoS == [set |-> FALSE, du |-> 0, dv |-> 0, ku |-> <<>>, kv |-> <<>>, cp |-> <<>>]
Start == [k \in 1..6 |-> NoS]
Acc(s) == [ok |-> TRUE, why |-> "", st |-> s]
Rej(w) == [ok |-> FALSE, why |-> w, st |-> Start]
If(b, s, w) == IF b THEN Acc(s) ELSE Rej(w)
Refused(e) == e.obs.ok = 0 /\ e.obs.ex \in {"invalid_argument", "out_of_range", "runtime_error", "exception"}
MkS(e) ==
  LET n == Len(e.cp)  m == Len(e.cp[1])
  IN [set |-> TRUE, du |-> e.du, dv |-> e.dv,
      ku |-> IF e.ku = <<>> THEN DefaultKnots(n, e.du) ELSE e.ku,
      kv |-> IF e.kv = <<>> THEN DefaultKnots(m, e.dv) ELSE e.kv,
      cp |-> [a \in 1..n |-> [b \in 1..m |-> HNorm(e.cp[a][b])]]]
SeqMatch(o, kn) == Len(o) = Len(kn) /\ \A k \in 1..Len(kn) : NearR(o[k], kn[k], Tol)
WhyS(d, s) ==
  IF d.deg # <<s.du, s.dv>> THEN "degrees"
  ELSE IF d.size # <<NU(s), NV(s)>> THEN "net size"
  ELSE IF ~SeqMatch(d.ku, s.ku) THEN "u knots"
  ELSE IF ~SeqMatch(d.kv, s.kv) THEN "v knots"
  ELSE IF Len(d.cp) # NU(s) \/ \E a \in 1..NU(s) : Len(d.cp[a]) # NV(s) \/ \E b \in 1..NV(s) : ~NearHom(d.cp[a][b], s.cp[a][b], Tol) THEN "control points"
  ELSE IF ~(NearR(d.iv[1][1], ULo(s), Tol) /\ NearR(d.iv[1][2], UHi(s), Tol) /\ NearR(d.iv[2][1], VLo(s), Tol) /\ NearR(d.iv[2][2], VHi(s), Tol)) THEN "domain"
  ELSE ""
Expect(s, x, d, what) == LET w == WhyS(d, x) IN IF w = "" THEN Acc(s) ELSE Rej(what \o ": " \o w)
Euc(h, j) == Norm(h[j], h[4])
AllCp(s) == {s.cp[a][b] : a \in 1..NU(s), b \in 1..NV(s)}
TightBox(o, s) ==
  \A j \in 1..3 : /\ \A h \in AllCp(s) : LeqR(o.lo[j], Euc(h, j), Tol) /\ GeqR(o.hi[j], Euc(h, j), Tol)
                  /\ \E h \in AllCp(s) : NearR(o.lo[j], Euc(h, j), Tol)
                  /\ \E h \in AllCp(s) : NearR(o.hi[j], Euc(h, j), Tol)
BoxHas(o, h) == \A j \in 1..3 : LeqR(o.lo[j], Euc(h, j), Tol) /\ GeqR(o.hi[j], Euc(h, j), Tol)
Range(q) == {q[a] : a \in 1..Len(q)}
NearHomRel(o, h) == Len(o) = 4 /\ \A j \in 1..4 : NearND(o[j], h[j], h[5], Tol + Abs(h[j]) \div h[5])
Third(a, b) == {a, RDiv(RAdd(a, b), R(2)), b}
Lat(s) == {<<u, v>> : u \in Third(ULo(s), UHi(s)), v \in Third(VLo(s), VHi(s))}
Inside(s, dir, t) == IF dir = 0 THEN RLt(ULo(s), t) /\ RLt(t, UHi(s)) ELSE RLt(VLo(s), t) /\ RLt(t, VHi(s))
InRange(s, dir, t) == IF dir = 0 THEN RLe(ULo(s), t) /\ RLe(t, UHi(s)) ELSE RLe(VLo(s), t) /\ RLe(t, VHi(s))
Iso(s, dir, t) == IF dir = 0 THEN IsoU(s, t) ELSE IsoV(s, t)
CurveBox(o, c) == \A q \in 0..4 : LET t == RAdd(DomLo(c), RMul(RSub(DomHi(c), DomLo(c)), Norm(q, 4))) IN BoxHas(o, CPoint(c, t))

SStep(s, e) ==
  LET o == e.obs IN
  IF e.op \notin {"split", "sub", "iso"} /\ o.ok = 0 THEN Rej(e.op \o " failed")
  ELSE
  CASE e.op = "new" -> LET x == MkS(e) IN Expect([s EXCEPT ![e.k] = x], x, o.d, "constructed surface")
    [] e.op = "state" -> Expect(s, s[e.k], o.d, "state of the surface")
    [] e.op = "eval" -> If(NearPoint(o.p, HSurf(s[e.k], e.u, e.v), Tol), s, "point on the surface")
    [] e.op = "corners" ->
         LET x == s[e.k] IN If(\A a \in 1..2 : \A b \in 1..2 :
              NearPoint(o.ps[2 * a + b - 2], x.cp[IF a = 1 THEN 1 ELSE NU(x)][IF b = 1 THEN 1 ELSE NV(x)], Tol), s, "corner points")
    [] e.op = "flat" ->
         LET x == s[e.k]  n == NU(x) * NV(x)
             At(q) == x.cp[((q - 1) \div NV(x)) + 1][((q - 1) % NV(x)) + 1]
         IN If(/\ Len(o.f4) = n /\ \A q \in 1..n : NearHom(o.f4[q], At(q), Tol)
               /\ \A v \in 1..Len(o.f3) : Len(o.f3[v]) = n /\ \A q \in 1..n : NearPoint(o.f3[v][q], At(q), Tol), s, "flattened control points")
    [] e.op = "insert" -> LET x == SInsert(s[e.k], e.dir, e.t, e.n) IN Expect([s EXCEPT ![e.k] = x], x, o.d, "surface after knot insertion")
    [] e.op = "split" ->
         LET x == s[e.k] IN
         IF ~Inside(x, e.dir, e.t) THEN If(Refused(e), s, "split at the domain edge must be refused")
         ELSE IF o.ok = 0 THEN Rej("split failed")
         ELSE LET l == SLeft(x, e.dir, e.t)  r == SRight(x, e.dir, e.t)
              IN IF WhyS(o.d1, l) # "" THEN Rej("low part of the split: " \o WhyS(o.d1, l))
                 ELSE IF WhyS(o.d2, r) # "" THEN Rej("high part of the split: " \o WhyS(o.d2, r))
                 ELSE Expect([s EXCEPT ![e.l] = l, ![e.r] = r], x, o.d, "split modified the original")
    [] e.op = "sub" ->
         LET x == s[e.k]
             u == IF e.mid THEN RDiv(RAdd(ULo(x), UHi(x)), R(2)) ELSE e.u
             v == IF e.mid THEN RDiv(RAdd(VLo(x), VHi(x)), R(2)) ELSE e.v
         IN IF ~Inside(x, 0, u) \/ ~Inside(x, 1, v) THEN If(Refused(e), s, "subdivision at the domain edge must be refused")
            ELSE IF o.ok = 0 THEN Rej("subdivision failed")
            ELSE LET qs == Quad(x, u, v)
                 IN IF \E q \in 1..4 : WhyS(o.ds[q], qs[q]) # "" THEN Rej("quadrant of the subdivision")
                    ELSE Expect([s EXCEPT ![3] = qs[1], ![4] = qs[2], ![5] = qs[3], ![6] = qs[4]], x, o.d, "subdivision modified the original")
    [] e.op = "decompose" ->
         LET x == s[e.k]
             us == IF e.dir = 1 THEN <<x.ku>> ELSE Cells(x.ku, x.du)
             vs == IF e.dir = 0 THEN <<x.kv>> ELSE Cells(x.kv, x.dv)
             uo == [a \in 1..Len(us) |-> IF e.dir = 1 THEN x ELSE SOver(x, 0, us[a])]
             All == {<<a, b>> : a \in 1..Len(us), b \in 1..Len(vs)}
             Piece == [ab \in All |-> IF e.dir = 0 THEN uo[ab[1]] ELSE SOver(uo[ab[1]], 1, vs[ab[2]])]
         IN IF Len(o.ds) # Len(us) * Len(vs) THEN Rej("number of Bezier patches")
            ELSE IF \E ab \in All : ~\E q \in 1..Len(o.ds) : WhyS(o.ds[q], Piece[ab]) = "" THEN Rej("a knot-span cell has no patch")
            ELSE Expect(s, x, o.d, "decomposition modified the original")
    [] e.op = "iso" ->
         LET x == s[e.k] IN
         IF ~InRange(x, e.dir, e.t) THEN If(Refused(e), s, "isocurve out of range must be refused")
         ELSE IF o.ok = 0 THEN Rej("isocurve failed")
         ELSE LET c == Iso(x, e.dir, e.t)  w == WhyNot(o.c, c)
              IN IF w # "" THEN Rej("isocurve: " \o w) ELSE If(CurveBox(o, c), s, "box of the isocurve")
    [] e.op = "bounds" ->
         LET x == s[e.k]
             cs == <<IsoU(x, ULo(x)), IsoU(x, UHi(x)), IsoV(x, VLo(x)), IsoV(x, VHi(x))>>
         IN IF Len(o.cs) # 4 THEN Rej("number of boundary curves")
            ELSE If(\A q \in 1..4 : WhyNot(o.cs[q].c, cs[q]) = "" /\ CurveBox(o.cs[q], cs[q]), s, "boundary curves")
    [] e.op = "gder" ->
         LET x == SDeriv(s[e.k], e.dir) IN Expect([s EXCEPT ![e.l] = x], x, o.d, "derivative surface")
    [] e.op = "dnum" ->
         LET x == s[e.k]
             Ok(ps, r) == \A j \in 1..3 : NearR(ps[j], r[j], 200000 * (1 + Abs(r[j][1]) \div r[j][2]))
         IN If(Ok(o.pu, Partial(x, 0, e.u, e.v)) /\ Ok(o.pv, Partial(x, 1, e.u, e.v)), s, "numerical partial derivatives")
    [] e.op = "dcpts" ->
         LET x == IF e.dir = 0 THEN ColCurve(s[e.k], e.line) ELSE RowCurve(s[e.k], e.line)
         IN If(Len(o.pk) = e.d + 1 /\ \A k \in 0..e.d : \E c \in {CHodoN(x, k)} : \A a \in 1..Len(o.pk[k + 1]) : NearHomRel(o.pk[k + 1][a], c.cp[e.r1 + a]),
               s, "control points of the curve derivatives")
    [] e.op = "sdcpts" ->
         LET x == s[e.k]
             ks == {<<es.k, es.l>> : es \in Range(o.es)}
         IN IF WhyS(o.d, x) # "" THEN Rej("derivative control points modified the surface")
            ELSE If(\A kl \in ks : \E h \in {SHodoN(x, kl[1], kl[2])} : \A es \in Range(o.es) :
                      (es.k = kl[1] /\ es.l = kl[2]) => NearHomRel(es.p, h.cp[e.rs[1] + es.i + 1][e.ss[1] + es.j + 1]), s, "control points of the surface derivatives")
    [] e.op = "rsder" ->
         LET A == [k \in 1..Len(e.a) |-> [l \in 1..Len(e.a) |-> HNorm(e.a[k][l])]]
         IN If(\A j \in 1..3 : \E f \in {QuotDerivs(A, e.d, j)} :
                 \E m \in {Mag([q \in 1..Len(Orders(e.d)) |-> f[Orders(e.d)[q]]])} :
                 \A kl \in DOMAIN f : NearR(o.r[kl[1] + 1][kl[2] + 1][j], f[kl], Tol + 10 * m), s, "derivatives of the rational surface")
    [] e.op = "normal" ->
         LET x == s[e.k]  C == Primitive(RCross(Partial(x, 0, e.u, e.v), Partial(x, 1, e.u, e.v)))
         IN IF C = <<0, 0, 0>> THEN Acc(s) ELSE If(UnitAlong(o.n, C, 20), s, "surface normal")
    [] e.op = "bbox" -> If(TightBox(o, s[e.k]), s, "tight bounding box")
    [] e.op = "aabb" -> If(\A uv \in Lat(s[e.k]) : BoxHas(o, HSurf(s[e.k], uv[1], uv[2])), s, "bounding box contains the surface")
    [] e.op = "copy" -> IF WhyS(o.d, s[e.k]) # "" THEN Rej("source after copy") ELSE Expect([s EXCEPT ![e.l] = s[e.k]], s[e.k], o.d1, "copied surface")
    [] OTHER -> Rej("unknown event " \o e.op)

TR == INSTANCE TraceRun WITH TLog <- Log, Start <- Start, Step <- SStep
Init == TR!Init
Next == TR!Next
=============================================================================
