------------------------------- MODULE GjkModel -------------------------------
(* The simplex descent of the collision test as a transition system over every *)
(* small set S of Minkowski difference points and every choice of support      *)
(* points (ties and the initial direction are nondeterministic).               *)
EXTENDS Geom, TLC
CONSTANTS Ext, Max
VARIABLES S, simp, dir, it, res
vars == <<S, simp, dir, it, res>>
C == -Ext..Ext
Pt == C \X C \X C
RECURSIVE Subsets(_)
Subsets(n) == IF n = 0 THEN {{}} ELSE LET X == Subsets(n - 1) IN X \cup {s \cup {p} : s \in X, p \in Pt}
Init == /\ S \in Subsets(Max) \ {{}}
        /\ \E p \in S : simp = <<p>> /\ dir = Neg3(p)
        /\ it = 0 /\ res = "run"
Sq(x) == Norm(Dot(x[1], x[1]), x[2] * x[2])
DSeg(a, b) == IF a = b THEN R(Dot(a, a)) ELSE Sq(ClosestTo0({a, b}))
DTri(a, b, c) == Sq(ClosestTo0({a, b, c}))
Drop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Seg(s) ==
  LET a == s[2] b == s[1] ab == Sub3(b, a) ao == Neg3(a)
  IN IF Dot(ab, ao) > 0 THEN [hit |-> FALSE, s |-> s, d |-> Cross(Cross(ab, ao), ab)]
     ELSE [hit |-> FALSE, s |-> <<a>>, d |-> ao]
Tri(s) ==
  LET a == s[3] b == s[2] c == s[1] ab == Sub3(b, a) ac == Sub3(c, a) ao == Neg3(a) abc == Cross(ab, ac)
  IN IF Dot(Cross(ab, abc), ao) > 0 \/ Dot(Cross(abc, ac), ao) > 0
     THEN IF RLe(DSeg(a, b), DSeg(a, c)) THEN Seg(<<b, a>>) ELSE Seg(<<c, a>>)
     ELSE IF Dot(abc, ao) > 0 THEN [hit |-> FALSE, s |-> s, d |-> abc]
     ELSE [hit |-> FALSE, s |-> <<b, c, a>>, d |-> Neg3(abc)]
Tet(s) ==
  LET a == s[4] b == s[3] c == s[2] d == s[1] ao == Neg3(a)
      ab == Sub3(b, a) ac == Sub3(c, a) ad == Sub3(d, a)
      see == {f \in {<<b, c, 1>>, <<c, d, 3>>, <<d, b, 2>>} : Dot(Cross(Sub3(f[1], a), Sub3(f[2], a)), ao) > 0}
  IN IF see = {} THEN [hit |-> TRUE, s |-> s, d |-> O3]
     ELSE LET near == CHOOSE f \in see : \A g \in see : RLe(DTri(a, f[1], f[2]), DTri(a, g[1], g[2]))
          IN Tri(Drop(s, near[3]))
Handle(s) == IF Len(s) = 2 THEN Seg(s) ELSE IF Len(s) = 3 THEN Tri(s) ELSE Tet(s)
Step ==
  /\ res = "run" /\ it < 25
  /\ \E p \in S :
       /\ \A q \in S : Dot(q, dir) <= Dot(p, dir)
       /\ IF Dot(p, dir) < 0
          THEN res' = "apart" /\ UNCHANGED <<simp, dir, it>>
          ELSE LET r == Handle(Append(simp, p))
               IN /\ simp' = r.s /\ dir' = r.d /\ it' = it + 1
                  /\ res' = IF r.hit THEN "meet" ELSE "run"
  /\ UNCHANGED S
GiveUp == res = "run" /\ it = 25 /\ res' = "meet" /\ UNCHANGED <<S, simp, dir, it>>
Next == Step \/ GiveUp
VerdictOK == (res = "meet" => In0(S)) /\ (res = "apart" => ~In0(S))
Progress == (it > 12) => In0(S)               \* separate sets are recognised well within the iteration limit
=============================================================================
