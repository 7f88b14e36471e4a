----------------------------- MODULE LQTDesign -----------------------------
(***************************************************************************)
(* The parallel passes of linear quadratic tracking at design level, in    *)
(* exact arithmetic: segments of the time axis merged in every order,      *)
(* beside the Riccati recursion; checked against each other and against    *)
(* the definition of the optimum (zero gradient of a convex cost).         *)
(***************************************************************************)
EXTENDS LQT, TLC, Randomization, Integers
CONSTANTS TMax, N, MU, NPick

FSet == RandomSubset(NPick, [1..N -> [1..N -> -1..2]])
LSet == RandomSubset(NPick, [1..N -> [1..MU -> -1..2]])
HSet == RandomSubset(NPick, [1..N -> [1..N -> {-1, 0, 1, 2}]])
XSet == {[i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 2 ELSE 1]], [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN i + 1 ELSE 0]]}
ZSet == {[i \in 1..MU |-> [j \in 1..MU |-> IF i = j THEN a ELSE IF i < j THEN 1 ELSE 0]] : a \in {1, -2}}
USet == {[i \in 1..MU |-> [j \in 1..MU |-> IF i = j THEN a ELSE 1]] : a \in {5, 7}}
MSet == RandomSubset(NPick, [1..N -> [1..MU -> -1..1]])
VSet(k) == RandomSubset(2, [1..k -> -2..3])
Alt(a, b, T) == [i \in 1..T |-> IF i % 2 = 1 THEN a ELSE b]

VARIABLES P, segs, k, V
vars == <<P, segs, k, V>>
Init == /\ \E T \in 1..TMax, F1 \in FSet, L1 \in LSet, H1 \in HSet, X1 \in XSet, M1 \in MSet, Z1 \in ZSet, U1 \in USet :
           \E F2 \in RandomSubset(1, FSet), L2 \in RandomSubset(1, LSet), M2 \in RandomSubset(1, MSet),
              v1 \in VSet(N), v2 \in RandomSubset(1, VSet(N)), w1 \in RandomSubset(1, VSet(MU)) :
             P = [T |-> T, n |-> N, m |-> MU, F |-> Alt(F1, F2, T), L |-> Alt(L2, L1, T), c |-> Alt(v1, v2, T), X |-> Alt(X1, X1, T),
                  H |-> Alt(H1, MId(N), T), r |-> Alt(v2, v1, T), U |-> Alt(U1, U1, T), Z |-> Alt(Z1, MId(MU), T), s |-> Alt(w1, VZero(MU), T),
                  M |-> Alt(M1, M2, T), XT |-> X1, HT |-> H1, rT |-> v1]
        /\ segs = [i \in 1..(P.T + 1) |-> [a |-> i, b |-> i, e |-> IF i <= P.T THEN Stage(P, i) ELSE Last(P)]]
        /\ k = P.T + 1 /\ V = << Term(P) >>
Merge == \E i \in 1..(Len(segs) - 1) :
           /\ segs' = SubSeq(segs, 1, i - 1) \o << [a |-> segs[i].a, b |-> segs[i + 1].b, e |-> Comb(segs[i].e, segs[i + 1].e)] >>
                      \o SubSeq(segs, i + 2, Len(segs))
           /\ k = 1 /\ UNCHANGED <<P, k, V>>
Back == k > 1 /\ k' = k - 1 /\ V' = << Eager(Before(P, k - 1, Head(V))) >> \o V /\ UNCHANGED <<P, segs>>
Next == Merge \/ (Back /\ Len(segs) = P.T + 1)
Spec == Init /\ [][Next]_vars

Done == k = 1
X0 == [i \in 1..N |-> 2 * i - 3]
\* Any segment maps the value behind it to the value before it, whatever the merge order was.
SegExact == Done => \A i \in 1..Len(segs) : LET g == segs[i] IN
   IF g.b = P.T + 1 THEN MEq(g.e.J, V[g.a].S) /\ VEq(g.e.eta, V[g.a].v) /\ MEq(g.e.A, MZero(N, N))
   ELSE LET A == Apply(g.e, V[g.b + 1].S, V[g.b + 1].v) IN MEq(A.S, V[g.a].S) /\ VEq(A.v, V[g.a].v)
Opt == OptTraj(P, X0, Laws(P, V))
\* The roll-out of the laws is stationary, its cost is the value, and any other
\* control sequence costs more (the problem is convex).
Optimal == (Done /\ Len(segs) = P.T + 1) =>
   LET t == Opt IN
   /\ \A j \in 1..P.T : VEq(Gradient(P, t.xs, t.us)[j], VZero(MU))
   /\ REq(LCost(P, t.xs, t.us), ValueAt(V[1], X0))
   /\ \A j \in 1..P.T, dl \in {-1, 1} :
        LET us == [t.us EXCEPT ![j] = [i \in 1..MU |-> RAdd(t.us[j][i], dl)]] IN
        RLt(LCost(P, t.xs, t.us), LCost(P, Sim(P, X0, us), us))
\* A prefix segment and the value behind it give the optimal state there.
FwdBwd == (Done /\ segs[1].a = 1 /\ segs[1].b <= P.T) =>
   VEq(Land(segs[1].e, X0, V[segs[1].b + 1].S, V[segs[1].b + 1].v), Opt.xs[segs[1].b + 1])
=============================================================================
