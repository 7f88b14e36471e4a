----------------------------- MODULE FSCDesign -----------------------------
(***************************************************************************)
(* Design-level model of the parallel passes: the time axis is cut into    *)
(* segments; any two adjacent segments may be merged at any time, in any   *)
(* order (all schedules of all possible combination trees).  Independently *)
(* the sequential backward pass runs.  Checked against enumeration of all  *)
(* control sequences.                                                      *)
(***************************************************************************)
EXTENDS FSC, TLC, Randomization

CONSTANTS TMax, NX, NU, CostSet, NPick   \* NPick: sample size per table

\* Instances: f and L per stage drawn at random (by TLC, seeded) from all tables.
FTab == [1..NX -> [1..NU -> 0..NX-1]]
LTab == [1..NX -> [1..NU -> CostSet]]

VARIABLES P, segs, k, V
vars == <<P, segs, k, V>>
\* segs: sequence of [a, b, elem]: the segment covers stages a..b (T+1 is the
\* terminal element); k, V: sequential backward pass (V is the value at k).

Init == /\ \E T \in 1..TMax, f1 \in RandomSubset(NPick, FTab), L1 \in RandomSubset(NPick, LTab) :
           \E f2 \in RandomSubset(NPick, FTab), L2 \in RandomSubset(NPick, LTab), LT \in RandomSubset(2, [1..NX -> CostSet]) :
              LET f == [i \in 1..T |-> IF i % 2 = 1 THEN f1 ELSE f2]
                  L == [i \in 1..T |-> IF i % 3 = 1 THEN L1 ELSE L2]
              IN  P = [T |-> T, nx |-> NX, nu |-> NU, f |-> f, L |-> L, LT |-> LT]
        /\ segs = [i \in 1..(P.T + 1) |-> [a |-> i, b |-> i, e |-> IF i <= P.T THEN Elem(P, i) ELSE TermElem(P)]]
        /\ k = P.T + 1
        /\ V = [x \in 1..NX |-> R(P.LT[x])]

Merge == \E i \in 1..(Len(segs) - 1) :
           /\ segs' = SubSeq(segs, 1, i - 1)
                      \o << [a |-> segs[i].a, b |-> segs[i + 1].b, e |-> CombineV(segs[i].e, segs[i + 1].e)] >>
                      \o SubSeq(segs, i + 2, Len(segs))
           /\ UNCHANGED <<P, k, V>>
Back == /\ k > 1 /\ k' = k - 1 /\ V' = Bellman(P, k - 1, V) /\ UNCHANGED <<P, segs>>
Next == Merge \/ Back
Spec == Init /\ [][Next]_vars

AllU(n) == [1..n -> 0..(NU - 1)]
\* The optimum by enumeration, from stage j and state x.
Tail2(j) == [P EXCEPT !.T = P.T - j + 1, !.f = SubSeq(P.f, j, P.T), !.L = SubSeq(P.L, j, P.T)]
BestFrom(j, x) == LET Q == Tail2(j)
                      us == AllU(Q.T)
                  IN  CHOOSE c \in {Cost(Q, Roll(Q, x - 1, u), u) : u \in us} :
                        \A u \in us : RLe(c, Cost(Q, Roll(Q, x - 1, u), u))
\* The backward pass holds the exact optimum at every stage (principle of optimality).
SeqOptimal == \A x \in 1..NX : REq(V[x], BestFrom(k, x))
\* Each merged segment holds the exact least cost between its end points ...
SegExact == \A i \in 1..Len(segs) :
   LET g == segs[i]
       Q == [P EXCEPT !.T = g.b - g.a + 1, !.f = SubSeq(P.f, g.a, g.b), !.L = SubSeq(P.L, g.a, g.b), !.LT = [x \in 1..NX |-> 0]]
   IN  IF g.b = P.T + 1
       THEN \A x \in 1..NX, y \in 1..NX : REq(g.e[x][y], BestFrom(g.a, x))
       ELSE \A x \in 1..NX, y \in 1..NX :
              LET us == {u \in AllU(Q.T) : Roll(Q, x - 1, u)[Q.T + 1] = y - 1}
              IN  IF us = {} THEN g.e[x][y] = "inf"
                  ELSE /\ \A u \in us : RLe(g.e[x][y], Cost(Q, Roll(Q, x - 1, u), u))
                       /\ \E u \in us : REq(g.e[x][y], Cost(Q, Roll(Q, x - 1, u), u))
\* ... so when everything is merged the result is the sequential one.
ParIsSeq == (Len(segs) = 1 /\ k = 1) => \A x \in 1..NX : REq(segs[1].e[x][1], V[x])
CoverOK == /\ segs[1].a = 1 /\ segs[Len(segs)].b = P.T + 1
           /\ \A i \in 1..(Len(segs) - 1) : segs[i].b + 1 = segs[i + 1].a
=============================================================================
