------------------------------ MODULE Viterbi ------------------------------
(***************************************************************************)
(* Maximum a posteriori state paths of hidden Markov models.               *)
(*                                                                         *)
(* A model M is [n, T, prior, Pi, Po, ys]: prior[x] of the state before    *)
(* the first observation, Pi[x][z] of the transition x -> z, Po[z][y] of   *)
(* observing y in z, ys the T observations (numbered from 0).  All sums    *)
(* of logarithms of the code are products here: no rounding, no logarithm. *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets

HStates(M) == 1..M.n
Emit(M, k, z) == M.Po[z][M.ys[k] + 1]          \* observation k made in state z
Trans(M, k, x, z) == RMul(M.Pi[x][z], Emit(M, k, z))

\* Joint probability of a path (x_0 ... x_T, numbered from 0) and the observations.
RECURSIVE JointTo(_, _, _)
JointTo(M, xs, k) == IF k = 0 THEN M.prior[xs[1] + 1]
                     ELSE RMul(JointTo(M, xs, k - 1), Trans(M, k, xs[k] + 1, xs[k + 1] + 1))
Joint(M, xs) == JointTo(M, xs, Len(xs) - 1)

\* Max-product recursion: W[k+1][x] is the largest probability of a path that is in x at time k.
MaxStep(M, k, W) == Eager([z \in 1..M.n |-> RMaxOf([x \in 1..M.n |-> RMul(W[x], Trans(M, k, x, z))])])
RECURSIVE ScoresTo(_, _)
ScoresTo(M, k) == IF k = 0 THEN << Eager([x \in 1..M.n |-> R(M.prior[x])]) >>
                  ELSE LET prev == ScoresTo(M, k - 1) IN Append(prev, MaxStep(M, k, prev[k]))
Scores(M) == ScoresTo(M, M.T)

\* B[k+1][x]: the largest probability of the rest of the path after x at time k.
BackStep(M, k, B) == Eager([x \in 1..M.n |-> RMaxOf([z \in 1..M.n |-> RMul(Trans(M, k, x, z), B[z])])])
RECURSIVE RestFrom(_, _)
RestFrom(M, k) == IF k = M.T THEN << Eager([x \in 1..M.n |-> R1]) >>
                  ELSE LET rest == RestFrom(M, k + 1) IN << BackStep(M, k + 1, Head(rest)) >> \o rest
Rest(M) == RestFrom(M, 0)

\* Backtracking through the scores (any maximiser).
RECURSIVE TrackFrom(_, _, _)
ArgMaxes(v) == {x \in 1..Len(v) : \A z \in 1..Len(v) : RLe(v[z], v[x])}
TrackFrom(M, W, k) ==    \* all paths x_0..x_k that backtracking may produce, given k = M.T at the end
  IF k = M.T THEN {<<x - 1>> : x \in ArgMaxes(W[k + 1])}
  ELSE UNION { { <<x - 1>> \o p : x \in ArgMaxes(Eager([z \in 1..M.n |-> RMul(W[k + 1][z], M.Pi[z][Head(p) + 1])])) } : p \in TrackFrom(M, W, k + 1) }
Tracks(M, W) == TrackFrom(M, W, 0)

\* Segment elements and their combination (max-product).
VElem(M, k) == Eager([x \in 1..M.n |-> [z \in 1..M.n |-> Trans(M, k, x, z)]])
VPrior(M) == Eager([x \in 1..M.n |-> [z \in 1..M.n |-> R(M.prior[z])]])
VComb(A, B) == Eager([i \in 1..Len(A) |-> [k \in 1..Len(B[1]) |-> RMaxOf([j \in 1..Len(B) |-> RMul(A[i][j], B[j][k])])]])

\* The finite-state control problem of the model: time runs backwards, the
\* control is the previous state, costs are negative logarithms.
Control(M) == [T |-> M.T, nx |-> M.n, nu |-> M.n,
   f |-> [k \in 1..M.T |-> [x \in 1..M.n |-> [u \in 1..M.n |-> u - 1]]],
   L |-> Eager([k \in 1..M.T |-> [x \in 1..M.n |-> [u \in 1..M.n |-> RNeg(RLn(Trans(M, M.T + 1 - k, u, x)))]]]),
   LT |-> Eager([x \in 1..M.n |-> RNeg(RLn(M.prior[x]))])]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
=============================================================================
