--------------------------- MODULE PararealDesign ---------------------------
(***************************************************************************)
(* Parareal as a concurrent machine, over EVERY pair of fine and coarse     *)
(* propagators on a small ring of states (any dependence on the block and   *)
(* on the state, linear or not).  In the dense phase the blocks are         *)
(* processed in any order; the coarse sweep then moves along the blocks.    *)
(* After k iterations the first k boundaries hold the fine solution,        *)
(* further iterations keep it, and with k >= blocks all of them do,         *)
(* whatever the schedule.                                                   *)
(***************************************************************************)
EXTENDS Parareal, TLC, FiniteSets
CONSTANTS Ring, Blocks, Uniform       \* Uniform: the same propagators in every block
VARIABLES F, G, y, g, f, todo, pos, k
vars == << F, G, y, g, f, todo, pos, k >>

Vals == 0..(Ring - 1)
Maps == [Vals -> Vals]
Props == IF Uniform THEN { [j \in 1..Blocks |-> m] : m \in Maps } ELSE [1..Blocks -> Maps]
FF(j, x) == F[j][x]
GG(j, x) == G[j][x]
Fix(n, a, b) == (n + a + Ring - b) % Ring

Init ==
  /\ F \in Props /\ G \in Props
  /\ \E x0 \in Vals : LET w == PStart(GG, x0, Blocks) IN y = w.y /\ g = w.g
  /\ f = [j \in 1..(Blocks + 1) |-> y[1]]
  /\ todo = 1..Blocks /\ pos = 0 /\ k = 0
\* One block of the dense phase, any of those left.
Dense(j) ==
  /\ pos = 0 /\ j \in todo
  /\ f' = [f EXCEPT ![j + 1] = FF(j, y[j])]
  /\ todo' = todo \ {j}
  /\ UNCHANGED << F, G, y, g, pos, k >>
\* One block of the sweep: the new coarse value overwrites the old one.
Coarse ==
  /\ todo = {} /\ pos < Blocks
  /\ LET n == GG(pos + 1, y[pos + 1]) IN
     /\ y' = [y EXCEPT ![pos + 2] = Fix(n, f[pos + 2], g[pos + 2])]
     /\ g' = [g EXCEPT ![pos + 2] = n]
  /\ pos' = pos + 1
  /\ UNCHANGED << F, G, f, todo, k >>
Again ==
  /\ todo = {} /\ pos = Blocks /\ k < Blocks
  /\ k' = k + 1 /\ todo' = 1..Blocks /\ pos' = 0
  /\ UNCHANGED << F, G, y, g, f >>
Next == (\E j \in 1..Blocks : Dense(j)) \/ Coarse \/ Again
Spec == Init /\ [][Next]_vars

Settled == pos = 0 /\ todo = 1..Blocks                     \* between iterations; k are done
Solution == Chain(FF, y[1], Blocks)
Progress == Settled => \A j \in 1..(k + 1) : y[j] = Solution[j]
Complete == (Settled /\ k >= Blocks) => y = Solution
\* During a sweep, what is exact already is not disturbed.
Stable == \A j \in 1..(k + 1) : y[j] = Solution[j]
\* The machine computes the recursion that the trace specification replays.
Replay == Settled => y = PRun(FF, GG, Fix, y[1], Blocks, k)
\* The known boundary never changes.
Known == [][y'[1] = y[1]]_vars
=============================================================================
