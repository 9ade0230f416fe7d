------------------------------ MODULE ChainModel ------------------------------
(* Design model of polyline assembly: greedy extension from any unused segment, *)
(* at either end, in any order; the closing point of a ring is dropped.         *)
EXTENDS Algebra, TLC
CONSTANTS Points, MaxSegs
VARIABLES g, left, cur, done
vars == <<g, left, cur, done>>
Init == /\ g \in UNION {[1..m -> (1..Points) \X (1..Points)] : m \in 0..MaxSegs}
        /\ left = 1..Len(g) /\ cur = <<>> /\ done = <<>>
Start == /\ cur = <<>> /\ left # {}
         /\ \E k \in left : cur' = g[k] /\ left' = left \ {k}
         /\ UNCHANGED <<g, done>>
Other(s, p) == IF s[1] = p THEN s[2] ELSE s[1]
Meets(s, p) == s[1] = p \/ s[2] = p
Front == /\ cur # <<>>
         /\ \E k \in left : Meets(g[k], cur[1]) /\ cur' = <<Other(g[k], cur[1])>> \o cur /\ left' = left \ {k}
         /\ UNCHANGED <<g, done>>
Back == /\ cur # <<>>
        /\ \E k \in left : Meets(g[k], cur[Len(cur)]) /\ cur' = Append(cur, Other(g[k], cur[Len(cur)])) /\ left' = left \ {k}
        /\ UNCHANGED <<g, done>>
Finish == /\ cur # <<>>
          /\ \A k \in left : ~Meets(g[k], cur[1]) /\ ~Meets(g[k], cur[Len(cur)])
          /\ done' = Append(done, IF cur[1] = cur[Len(cur)] THEN SubSeq(cur, 1, Len(cur) - 1) ELSE cur)
          /\ cur' = <<>> /\ UNCHANGED <<g, left>>
Next == Start \/ Front \/ Back \/ Finish
Assembled == (left = {} /\ cur = <<>>) => Chains(g, done)
=============================================================================
