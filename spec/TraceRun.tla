------------------------------ MODULE TraceRun ------------------------------
(* Validation of recorded behaviours against a specification.  Step(st, e)   *)
(* is the specification's transition relation resolved by the recorded event:*)
(* it yields [ok, why, st], the successor state if the observation is one the *)
(* specification allows.  A scenario is a behaviour of the specification iff *)
(* every event is accepted; the first rejected event ends it.                *)
EXTENDS Integers, Sequences, TLC
CONSTANTS TLog, Start, Step(_, _)
VARIABLES sc, i, st
Init == /\ sc \in 1..Len(TLog)
        /\ i = 0
        /\ st = Start
Next ==
  /\ i >= 0
  /\ i <= Len(TLog[sc].ev)
  /\ IF i = Len(TLog[sc].ev)
     THEN /\ PrintT(<<"DONE", sc>>) /\ i' = -2 /\ st' = Start /\ UNCHANGED sc
     ELSE \E r \in {Step(st, TLog[sc].ev[i + 1])} :      \* evaluated once
             IF r.ok
             THEN /\ i' = i + 1 /\ st' = r.st /\ UNCHANGED sc
             ELSE /\ PrintT(<<"REJECT", sc, i + 1, r.why>>) /\ i' = -1 /\ st' = Start /\ UNCHANGED sc
=============================================================================
