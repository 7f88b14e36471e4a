---------------------------- MODULE SQPDesign ----------------------------
(***************************************************************************)
(* SQP at design level, exact arithmetic over small integers.              *)
(* kind "newton": a strictly convex QP as a polynomial problem; the machine*)
(* takes full Newton steps from an arbitrary point and multiplier.         *)
(* kind "quasi":  B starts at the identity and is updated with arbitrary   *)
(* pairs (s, y).                                                           *)
(***************************************************************************)
EXTENDS SQP, TLC, Randomization
CONSTANTS NPick, Steps, Gmax
VARIABLES st
vars == st

E2(j) == [i \in 1..2 |-> IF i = j THEN 1 ELSE 0]
QObj(G, c) == << [c |-> RDiv(G[1][1], "2"), e |-> <<2, 0>>], [c |-> G[1][2], e |-> <<1, 1>>], [c |-> RDiv(G[2][2], "2"), e |-> <<0, 2>>],
                 [c |-> c[1], e |-> <<1, 0>>], [c |-> c[2], e |-> <<0, 1>>] >>
QCon(A, b) == << << [c |-> A[1], e |-> <<1, 0>>], [c |-> A[2], e |-> <<0, 1>>], [c |-> RNeg(b), e |-> <<0, 0>>] >> >>
Vecs == [1..2 -> -1..1]
Gs == {g \in [1..3 -> -1..Gmax] : g[1] > 0 /\ g[3] > 0 /\ g[1] * g[3] > g[2] * g[2]}
GM(g) == << <<g[1], g[2]>>, <<g[2], g[3]>> >>
Tup(f) == <<f[1], f[2]>>
Init ==
  \/ \E g \in Gs, c \in Vecs, A \in Vecs \ {[i \in 1..2 |-> 0]}, b \in {-1, 2}, x \in RandomSubset(NPick, Vecs), lam \in {0, 3} :
       st = [kind |-> "newton", G |-> GM(g), c |-> Tup(c), A |-> <<Tup(A)>>, b |-> <<b>>, x |-> Tup(x), lam |-> <<lam>>, it |-> 0]
  \/ st = [kind |-> "basic", B |-> MId(2), prev |-> MId(2), s |-> <<1, 0>>, y |-> <<1, 0>>, it |-> 0]
  \/ st = [kind |-> "damped", B |-> MId(2), prev |-> MId(2), s |-> <<1, 0>>, y |-> <<1, 0>>, it |-> 0]
Q == [n |-> 2, m |-> 1, f |-> QObj(st.G, st.c), c |-> QCon(st.A[1], st.b[1])]
NewtonStep == st.kind = "newton" /\ st.it < 2 /\ LET p == Newton(Q, st.x, st.lam) IN st' = [st EXCEPT !.x = p[1], !.lam = p[2], !.it = st.it + 1]
QuasiStep == /\ st.kind \in {"basic", "damped"} /\ st.it < Steps
             /\ \E sv \in Vecs \ {[i \in 1..2 |-> 0]}, yv \in [1..2 -> -2..2] :
                  st' = [st EXCEPT !.prev = st.B, !.s = Tup(sv), !.y = Tup(yv), !.it = st.it + 1,
                                   !.B = IF st.kind = "basic" THEN Basic(st.B, Tup(sv), Tup(yv)) ELSE Damped(st.B, Tup(sv), Tup(yv))]
Next == NewtonStep \/ QuasiStep
Spec == Init /\ [][Next]_vars

\* The polynomial problem is the QP: its Newton step is the KKT point, whatever the multiplier.
IsKkt == (st.kind = "newton" /\ st.it > 0) =>
  LET k == Kkt(st.G, st.c, st.A, st.b) IN VEq(st.x, k[1]) /\ VEq(st.lam, k[2]) /\ REq(KktResidual(Q, st.x), R0) /\ REq(Con(Q, st.x)[1], R0)
\* The KKT point of a convex QP is feasible and beats every other feasible point (tried along the constraint).
Minimises == st.kind = "newton" =>
  LET k == Kkt(st.G, st.c, st.A, st.b) d == << st.A[1][2], -st.A[1][1] >> IN
  \A t \in {-3, -1, 1, 2} : RGt(QCost(st.G, st.c, VAdd(k[1], VScale(t, d))), QCost(st.G, st.c, k[1]))
\* Optimality is detected only at the solution.
ResidualMeansKkt == st.kind = "newton" =>
  ((REq(KktResidual(Q, st.x), R0) /\ REq(Con(Q, st.x)[1], R0)) <=> VEq(st.x, Kkt(st.G, st.c, st.A, st.b)[1]))
Sym == st.kind \in {"basic", "damped"} => Symmetric(st.B, R0)
Definite == st.kind \in {"basic", "damped"} => PosDef(st.B)
Secant == (st.kind = "basic" /\ st.it > 0) =>
  IF RGt(VDot(st.s, st.y), R0) THEN VEq(MVec(st.B, st.s), st.y) ELSE st.B = st.prev
DampedSecant == (st.kind = "damped" /\ st.it > 0) =>
  /\ VEq(MVec(st.B, st.s), DampedY(st.prev, st.s, st.y))
  /\ RGe(VDot(st.s, MVec(st.B, st.s)), RMul("1/5", MQuad(st.s, st.prev, st.s)))
 
=============================================================================
