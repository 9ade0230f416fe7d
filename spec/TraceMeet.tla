------------------------------ MODULE TraceMeet ------------------------------
(* Point inversion (G03) on curves c[1..2] and surfaces s[1..2].               *)
EXTENDS Invert, TraceLog
VARIABLES sc, i, st
NoC == [set |-> FALSE]
Start == [c |-> <<NoC, NoC>>, s |-> <<NoC, NoC>>]
Acc(s) == [ok |-> TRUE, why |-> "", st |-> s]
Rej(w) == [ok |-> FALSE, why |-> w, st |-> Start]
If(b, s, w) == IF b THEN Acc(s) ELSE Rej(w)
HN(cp) == [k \in 1..Len(cp) |-> HNorm(cp[k])]
\* 256 * 2^-e.tol and the radius r / 2^it, in 10^-9
TolI(e) == 1000000000 \div (2 ^ (e.tol - 8)) + 2
Rad(e) == IF e.it > 20 THEN 0 ELSE (e.r[1] * (1000000000 \div e.r[2])) \div (2 ^ e.it)
Slack(e) == TolI(e) + Rad(e)
\* 2^-e.tol2 K for the K of StopAngle; 256 2^-e.tol2
Ang(e, K) == ((1000000000 \div (2 ^ e.tol2)) \div 64 + 1) * ((64 * K[1]) \div K[2] + 1)
Ang256(e) == (1000000000 \div (2 ^ e.tol2) + 1) * 256
Diff(a, b) == RAbs(RSub(a, b))
PNear(o, P, tol) == \A j \in 1..3 : NearR(o[j], P[j], tol)
Regular(c, t) == With(HDerivs(c, t, 1), LAMBDA D : RLe(<<1, 8>>, RInf([j \in 1..3 |-> RatDerivs(D, j)[2]])))
MStep(s, e) ==
  LET o == e.obs IN
  IF o.ok = 0 /\ ~(e.op = "si" /\ e.how = "any" /\ o.ex = "runtime_error") THEN Rej(e.op \o " failed")
  ELSE
  CASE e.op = "cnew" -> With([set |-> TRUE, deg |-> e.deg, kn |-> e.kn, cp |-> HN(e.cp), per |-> FALSE], LAMBDA c : Acc([s EXCEPT !.c[e.k] = c]))
    [] e.op = "snew" -> With([set |-> TRUE, du |-> e.du, dv |-> e.dv, ku |-> e.ku, kv |-> e.kv, cp |-> [a \in 1..Len(e.cp) |-> HN(e.cp[a])]], LAMBDA c : Acc([s EXCEPT !.s[e.k] = c]))
    [] e.op = "ci" ->
        LET c == s.c[e.k] IN
        IF ~o.in THEN Rej("inversion left the domain of the curve")
        ELSE IF e.how = "any" THEN Acc(s)
        ELSE IF e.how = "exact"
             THEN IF ~(Regular(c, e.t) /\ e.u = e.t /\ \A j \in 1..3 : e.P[j] = Euclid(HPoint(c, e.t))[j]) THEN Rej("BAD SCENARIO: exact")
                  ELSE If(NearR(o.u, e.t, TolI(e)) /\ PNear(o.p, e.P, TolI(e)), s, "inversion left the exact parameter")
        ELSE IF ~(CurveCert(c, e.P, e.t, e.r) /\ RLe(Diff(e.u, e.t), e.r)) THEN Rej("BAD SCENARIO: curve certificate")
        ELSE If(NearR(o.u, e.t, Slack(e) + Ang(e, StopAngle(c, e.P, e.t, e.r, e.tol2))), s, "inversion does not give the foot of the point")
    [] e.op = "si" ->
        LET x == s.s[e.k] IN
        IF o.ok = 0 THEN Acc(s)
        ELSE IF ~o.in THEN Rej("inversion left the domain of the surface")
        ELSE IF e.how = "any" THEN Acc(s)
        ELSE IF ~(SurfCert(x, e.P, e.t[1], e.t[2], e.r, e.sg) /\ LET a == Diff(e.u, e.t[1]) b == Diff(e.v, e.t[2]) IN RLe(RAdd(RMul(a, a), RMul(b, b)), RMul(e.r, e.r))) THEN Rej("BAD SCENARIO: surface certificate")
        ELSE If(NearR(o.u, e.t[1], Slack(e) + Ang256(e)) /\ NearR(o.v, e.t[2], Slack(e) + Ang256(e)), s, "inversion does not give the foot of the point")
    [] OTHER -> Rej("BAD SCENARIO: op")
TR == INSTANCE TraceRun WITH TLog <- Log, Start <- Start, Step <- MStep
Init == TR!Init
Next == TR!Next
=============================================================================
