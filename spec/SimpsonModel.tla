----------------------------- MODULE SimpsonModel -----------------------------
(* Design model of adaptive Simpson quadrature over any refinement: for         *)
(* polynomials up to degree 5 the accumulated error estimate bounds the error,  *)
(* and cubics are integrated exactly.                                           *)
EXTENDS Algebra, TLC
CONSTANTS C, Degree, Depth
VARIABLES c, todo, acc, err, out
Fn(x) == PEval(c, x)
Mid(a, b) == RMul(<<1, 2>>, RAdd(a, b))
S(a, b) == RMul(RMul(RSub(b, a), <<1, 6>>), RAdd(RAdd(Fn(a), RMul(R(4), Fn(Mid(a, b)))), Fn(b)))
Init == /\ c \in [1..(Degree + 1) -> {R(k) : k \in -C..C}]
        /\ todo \in {<<<<R(a), R(b), 0>>>> : a \in {-1, 0}, b \in {1, 2}}
        /\ acc = Zero /\ err = Zero /\ out = <<todo[1][1], todo[1][2]>>
Top == todo[Len(todo)]
Rest == SubSeq(todo, 1, Len(todo) - 1)
Two == LET m == Mid(Top[1], Top[2]) IN RAdd(S(Top[1], m), S(m, Top[2]))
Est == RMul(RAbs(RSub(Two, S(Top[1], Top[2]))), <<1, 15>>)
Accept == /\ todo # <<>> /\ acc' = RAdd(acc, Two) /\ err' = RAdd(err, Est) /\ todo' = Rest
Refine == /\ todo # <<>> /\ Top[3] < Depth /\ Est # Zero
          /\ LET m == Mid(Top[1], Top[2]) IN todo' = Rest \o <<<<m, Top[2], Top[3] + 1>>, <<Top[1], m, Top[3] + 1>>>>
          /\ UNCHANGED <<acc, err>>
Next == (Accept \/ Refine) /\ UNCHANGED <<c, out>>
Ahead == LET RECURSIVE Sm(_) Sm(k) == IF k = 0 THEN Zero ELSE RAdd(Sm(k - 1), PInt(c, todo[k][1], todo[k][2])) IN Sm(Len(todo))
Bound == LET d == RAbs(RSub(RAdd(acc, Ahead), PInt(c, out[1], out[2]))) IN RLe(d, err)
Cubic == (\A k \in 5..Len(c) : c[k] = Zero) => RAdd(acc, Ahead) = PInt(c, out[1], out[2])
=============================================================================
