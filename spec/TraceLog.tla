------------------------------ MODULE TraceLog ------------------------------
(* The recorded behaviours: one scenario per line, [id, ev |-> <<event>>];    *)
(* an event carries the operation, its arguments and the observation `obs`.  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
=============================================================================
