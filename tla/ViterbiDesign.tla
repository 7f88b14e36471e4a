--------------------------- MODULE ViterbiDesign ---------------------------
(***************************************************************************)
(* All schedules of the parallel max-product decoder and of the sequential *)
(* one, on random small models, against enumeration of all paths.          *)
(***************************************************************************)
EXTENDS Viterbi, TLC, Randomization
FS == INSTANCE FSC
CONSTANTS TMax, NS, NY, ProbSet, NPick

VARIABLES M, segs, k, W
vars == <<M, segs, k, W>>

Init == /\ \E T \in 1..TMax, prior \in RandomSubset(NPick, [1..NS -> ProbSet]), Pi \in RandomSubset(NPick, [1..NS -> [1..NS -> ProbSet]]),
              Po \in RandomSubset(NPick, [1..NS -> [1..NY -> ProbSet]]) :
           \E ys \in RandomSubset(2, [1..T -> 0..(NY - 1)]) :
             M = [n |-> NS, T |-> T, prior |-> prior, Pi |-> Pi, Po |-> Po, ys |-> ys]
        /\ segs = [i \in 1..(M.T + 1) |-> [a |-> i - 1, b |-> i - 1, e |-> IF i = 1 THEN VPrior(M) ELSE VElem(M, i - 1)]]
        /\ k = 0 /\ W = << Eager([x \in 1..NS |-> R(M.prior[x])]) >>
Merge == \E i \in 1..(Len(segs) - 1) :
           /\ segs' = SubSeq(segs, 1, i - 1) \o << [a |-> segs[i].a, b |-> segs[i + 1].b, e |-> VComb(segs[i].e, segs[i + 1].e)] >>
                      \o SubSeq(segs, i + 2, Len(segs))
           /\ UNCHANGED <<M, k, W>>
Forward == k < M.T /\ k' = k + 1 /\ W' = Append(W, MaxStep(M, k + 1, W[k + 1])) /\ UNCHANGED <<M, segs>>
Next == Merge \/ Forward
Spec == Init /\ [][Next]_vars

Paths(n) == [1..n -> 0..(NS - 1)]
Sub(j) == [M EXCEPT !.T = j]
ScoresExact == \A x \in 1..NS : LET ps == {p \in Paths(k + 1) : p[k + 1] = x - 1}
                 IN  /\ \A p \in ps : RLe(Joint(M, p), W[k + 1][x])
                     /\ \E p \in ps : REq(Joint(M, p), W[k + 1][x])
Best == RMaxOf(W[M.T + 1])
Done == k = M.T
\* Backtracking with any tie-breaking yields a path of maximal probability.
TrackOptimal == Done => \A p \in Tracks(M, W) : REq(Joint(M, p), Best)
\* Combining scores and rests: a state maximises the product exactly when it is on an optimal path.
FwdBwdExact == Done => LET B == Rest(M) IN \A j \in 0..M.T, x \in 1..NS :
     REq(RMul(W[j + 1][x], B[j + 1][x]), Best) <=> \E p \in Paths(M.T + 1) : p[j + 1] = x - 1 /\ REq(Joint(M, p), Best)
\* Every merge order gives the scores.
ParIsSeq == (Done /\ segs[1].a = 0) => \A z \in 1..NS, x \in 1..NS : REq(segs[1].e[x][z], W[segs[1].b + 1][z])
\* The control problem has the negative log-probability of the reversed path as its cost.
ControlExact == (Done /\ Len(segs) = M.T + 1) => LET C == Control(M) IN
   /\ \A p \in Paths(M.T + 1) : LET xs == Rev(p) us == SubSeq(xs, 2, M.T + 1) IN
        /\ FS!Roll(C, xs[1], us) = xs
        /\ RClose(FS!Cost(C, xs, us), RNeg(RLn(Joint(M, p))), "1e-40", 0)
   /\ LET V == FS!Values(C) IN \A j \in 0..M.T, x \in 1..NS : RClose(V[M.T + 1 - j][x], RNeg(RLn(W[j + 1][x])), "1e-40", 0)
=============================================================================
