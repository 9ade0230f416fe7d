------------------------------ MODULE MonoModel ------------------------------
(* Bezier and monomial forms describe the same polynomial, on every small net:  *)
(* conversions are inverse, values and derivatives agree with de Casteljau, the  *)
(* normal polynomial is the cross product of the partials, quarters agree with   *)
(* the whole.                                                                    *)
EXTENDS Mono, TLC
CONSTANTS E, N, M
VARIABLES p, co
Ord == {R(k) : k \in -E..E}
\* the two tangential coordinates and the height; the height varies, the others stay a (non-trivial) fixed net
X == [a \in 1..N |-> [b \in 1..M |-> R(2 * a - b)]]
Y == [a \in 1..N |-> [b \in 1..M |-> R(a * b)]]
\* the height grows row by row; the monomial form is computed when it is complete
Init == p = <<>> /\ co = <<>>
Next == Len(p) < N /\ \E r \in [1..M -> Ord] : \E x \in {Append(p, r)} :
          p' = x /\ co' = IF Len(x) = N THEN MonoOf(<<X, Y, x>>) ELSE <<>>
Full == Len(p) = N
net == <<X, Y, p>>
RECURSIVE Horner(_, _)
Horner(m, x) == IF m = <<>> THEN Zero ELSE With(Horner(Tail(m), x), LAMBDA r : RAdd(Head(m), RMul(x, r)))
Ev(Q, u, v) == With([a \in 1..Len(Q) |-> Horner(Q[a], v)], LAMBDA q : Horner(q, u))
Pars == {<<0, 1>>, <<1, 2>>, <<-1, 1>>, <<3, 1>>}
Inverse == Full => BezOf(co) = net
Values == Full => \E du \in {DU(co)}, dv \in {DV(co)} : \A u, v \in Pars : \A c \in 1..3 :
   Ev(co[c], u, v) = At(net[c], u, v) /\ Ev(du[c], u, v) = AtU(net[c], u, v) /\ Ev(dv[c], u, v) = AtV(net[c], u, v)
Cross == Full => \E nm \in {Normals(co)} : \A u, v \in Pars : \E n \in {NormalAt(net, u, v)} : \A c \in 1..3 : Ev(nm[c], u, v) = n[c]
H(x) == RMul(<<1, 2>>, x)
Quarters == Full => \A a, b \in 1..2 : \E q \in {Quarter(net, a, b)} : \A u, v \in {Zero, <<1, 2>>} : \A c \in 1..3 :
   At(q[c], u, v) = At(net[c], RAdd(H(u), H(R(a - 1))), RAdd(H(v), H(R(b - 1))))
=============================================================================
