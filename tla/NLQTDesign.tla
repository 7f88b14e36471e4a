----------------------------- MODULE NLQTDesign -----------------------------
(***************************************************************************)
(* The iteration at design level, exact arithmetic, polynomial dynamics.   *)
(* The references are chosen so that a feasible trajectory (us, xs) is     *)
(* stationary; the machine starts there or at a perturbed trajectory and   *)
(* iterates.                                                               *)
(***************************************************************************)
EXTENDS NLQT, TLC, Randomization, Integers
CONSTANTS TMax, N, NPick

\* x' = x + b u + a x^2 (+ coupling in two dimensions)
Unit(j) == [i \in 1..(N + 1) |-> IF i = j THEN 1 ELSE 0]
Dyn(a, b, g) == [kind |-> "poly", terms |-> [i \in 1..N |->
   << [c |-> 1, e |-> Unit(i)], [c |-> b[i], e |-> Unit(N + 1)], [c |-> a, e |-> [j \in 1..(N + 1) |-> IF j = i THEN 2 ELSE 0]],
      [c |-> g, e |-> [j \in 1..(N + 1) |-> IF j \in {1, N + 1} THEN 1 ELSE 0]] >>]]
Weights == {<<1, 1>>, <<2, 5>>}

VARIABLES P, Mod, us, xs, it, start
vars == <<P, Mod, us, xs, it, start>>
Base(T, w) == [T |-> T, n |-> N, m |-> 1, F |-> [k \in 1..T |-> MId(N)], L |-> [k \in 1..T |-> MZero(N, 1)], c |-> [k \in 1..T |-> VZero(N)],
               X |-> [k \in 1..T |-> MScale(w[1], MId(N))], H |-> [k \in 1..T |-> MId(N)], r |-> [k \in 1..T |-> VZero(N)],
               U |-> [k \in 1..T |-> <<<<w[2]>>>>], Z |-> [k \in 1..T |-> MId(1)], s |-> [k \in 1..T |-> VZero(1)], M |-> [k \in 1..T |-> MZero(N, 1)],
               XT |-> MId(N), HT |-> MId(N), rT |-> VZero(N)]
\* Control offsets s that make (us, xs) stationary: the gradient is linear in them.
Stationary(p, mod, u, x) == LET g == NGradient(p, mod, u, x) IN Eager([p EXCEPT !.s = [k \in 1..p.T |-> VAdd(p.s[k], MSolveV(p.U[k], g[k]))]])
Init == \E T \in 1..TMax, w \in Weights, a \in {"0", "1/4"}, g \in {"0", "1/2"}, b \in RandomSubset(NPick, [1..N -> 1..2]),
           u \in RandomSubset(NPick, [1..TMax -> -1..1]), x0 \in RandomSubset(NPick, [1..N -> -1..1]), st \in {"fixed", "moved"} :
           LET mod == Dyn(a, b, g) uu == [k \in 1..T |-> <<u[k]>>] xx == NSim(mod, x0, uu) IN
           /\ Mod = mod /\ P = Stationary(Base(T, w), mod, uu, xx) /\ it = 0 /\ start = [st |-> st, us |-> uu, xs |-> xx, affine |-> a = "0" /\ g = "0"]
           /\ us = IF st = "fixed" THEN uu ELSE [k \in 1..T |-> VAdd(uu[k], << "1/2" >>)]
           /\ xs = IF st = "fixed" THEN xx ELSE [k \in 1..(T + 1) |-> IF k = 1 THEN x0 ELSE VScale("1/2", xx[k])]    \* need not be feasible
Step == it < 2 /\ LET o == Iterate(P, Mod, us, xs) IN us' = o.us /\ xs' = o.xs /\ it' = it + 1 /\ UNCHANGED <<P, Mod, start>>
Next == Step
Spec == Init /\ [][Next]_vars

SameTraj == \A k \in 1..P.T : VEq(us[k], start.us[k]) /\ VEq(xs[k + 1], start.xs[k + 1])
\* A stationary feasible trajectory is a fixed point.
FixedPoint == start.st = "fixed" => SameTraj
\* For affine dynamics one iteration from anywhere arrives at the optimum.
AffineExact == (start.affine /\ it > 0) => SameTraj
\* Conversely: whatever the iteration leaves unmoved is feasible and stationary.
Moves == LET o == Iterate(P, Mod, us, xs) IN
   (\A k \in 1..P.T : VEq(us[k], o.us[k]) /\ VEq(xs[k + 1], o.xs[k + 1])) =>
      /\ \A k \in 1..P.T : VEq(NGradient(P, Mod, us, xs)[k], VZero(1))
      /\ \A k \in 1..P.T : VEq(xs[k + 1], F(Mod, xs[k], us[k]))
=============================================================================
