--------------------------- MODULE CondenseDesign ---------------------------
(***************************************************************************)
(* Condensing at design level, exact: blocks are taken from the end; the   *)
(* Riccati step over a block lands on the stage-wise value function, for   *)
(* every block size (the last block padded), and its optimal block control *)
(* unfolds to the stage-wise optimal controls.                             *)
(***************************************************************************)
EXTENDS Condense, TLC, Randomization, Integers
CONSTANTS TMax, NcMax, N, MU, NPick

FSet == RandomSubset(NPick, [1..N -> [1..N -> -1..2]])
LSet == RandomSubset(NPick, [1..N -> [1..MU -> -1..2]])
HSet == RandomSubset(NPick, [1..1 -> [1..N -> {-1, 0, 1}]])       \* one output: rank-deficient stage costs
MSet == RandomSubset(NPick, [1..1 -> [1..MU -> -1..1]])
VSet(k) == RandomSubset(2, [1..k -> -2..3])
Alt(a, b, T) == [i \in 1..T |-> IF i % 2 = 1 THEN a ELSE b]
Ut == [i \in 1..MU |-> [j \in 1..MU |-> IF i = j THEN 5 ELSE 1]]

VARIABLES P, Nc, kb, V, W
vars == <<P, Nc, kb, V, W>>
PP == Pad(P, Nc)
NB == PP.T \div Nc
Init == /\ Nc \in 1..NcMax
        /\ \E T \in 1..TMax, F1 \in FSet, L1 \in LSet, H1 \in HSet, M1 \in MSet :
           \E F2 \in RandomSubset(1, FSet), L2 \in RandomSubset(1, LSet), H2 \in RandomSubset(1, HSet), v1 \in VSet(N), v2 \in VSet(1), w1 \in RandomSubset(1, VSet(MU)) :
             P = [T |-> T, n |-> N, m |-> MU, F |-> Alt(F1, F2, T), L |-> Alt(L2, L1, T), c |-> Alt(v1, VZero(N), T), X |-> Alt(<<<<1>>>>, <<<<2>>>>, T),
                  H |-> Alt(H1, H2, T), r |-> Alt(v2, <<1>>, T), U |-> Alt(Ut, MScale(2, Ut), T), Z |-> Alt(MId(MU), MId(MU), T), s |-> Alt(w1, VZero(MU), T),
                  M |-> Alt(M1, MZero(1, MU), T), XT |-> MId(N), HT |-> MId(N), rT |-> v1]
        /\ kb = NB + 1 /\ V = << Term(P) >> /\ W = <<>>
Next == kb > 1 /\ kb' = kb - 1 /\ UNCHANGED <<P, Nc>>
        /\ LET B == Eager(Block(PP, (kb - 2) * Nc + 1, Nc)) t == BlockBefore(B, Head(V))
           IN  V' = << [S |-> t.S, v |-> t.v] >> \o V /\ W' = << [K |-> t.K, d |-> t.d, A |-> B.A, B |-> B.B, c |-> B.c] >> \o W
Spec == Init /\ [][Next]_vars

At(j) == IF j = NB + 1 THEN P.T + 1 ELSE (j - 1) * Nc + 1
Full == Vals(P)
Boundary == LET F == Full IN \A j \in kb..(NB + 1) : LET v == V[j - kb + 1] IN MEq(v.S, F[At(j)].S) /\ VEq(v.v, F[At(j)].v)
X0 == [i \in 1..N |-> 2 * i - 3]
\* Unfold.
RECURSIVE Unf(_, _)
Unf(x, j) == IF j > NB THEN << x >>
             ELSE LET w == W[j] u == Eager(VSub(w.d, MVec(w.K, x))) IN
                  << <<x, u>> >> \o Unf(Eager(VAdd(VAdd(MVec(w.A, x), MVec(w.B, u)), w.c)), j + 1)
Unfolds == kb = 1 =>
   LET o == OptTraj(P, X0, Laws(P, Full)) t == Eager(Unf(X0, 1)) IN
   /\ VEq(t[NB + 1], o.xs[P.T + 1])
   /\ \A j \in 1..NB : VEq(t[j][1], o.xs[At(j)])
   /\ \A k \in 1..P.T : LET j == (k - 1) \div Nc i == (k - 1) % Nc IN VEq(SubSeq(t[j + 1][2], i * MU + 1, i * MU + MU), o.us[k])
=============================================================================
