-------------------------------- MODULE NLQT --------------------------------
(***************************************************************************)
(* Iterated nonlinear linear quadratic tracking.                           *)
(* The dynamics are a value Mod:                                           *)
(*   [kind |-> "poly", terms]   x'_i = sum over terms[i] of                *)
(*                              t.c * prod_j (x, u)_j ^ t.e[j]             *)
(*   [kind |-> "car", dt]       position, heading and speed                *)
(* One iteration: linearise along (us, xs), solve the affine tracking      *)
(* problem from xs[1] exactly.                                             *)
(***************************************************************************)
EXTENDS LQT, Poly

CarF(dt, x, u) == << RAdd(x[1], RMul(dt, RMul(x[4], RCos(x[3])))), RAdd(x[2], RMul(dt, RMul(x[4], RSin(x[3])))),
                     RAdd(x[3], RMul(dt, u[2])), RAdd(x[4], RMul(dt, u[1])) >>
CarFx(dt, x, u) == << << R1, R0, RNeg(RMul(dt, RMul(x[4], RSin(x[3])))), RMul(dt, RCos(x[3])) >>,
                      << R0, R1, RMul(dt, RMul(x[4], RCos(x[3]))), RMul(dt, RSin(x[3])) >>,
                      << R0, R0, R1, R0 >>, << R0, R0, R0, R1 >> >>
CarFu(dt, x, u) == << << R0, R0 >>, << R0, R0 >>, << R0, dt >>, << dt, R0 >> >>

F(Mod, x, u)  == VRnd(Eager(IF Mod.kind = "car" THEN CarF(Mod.dt, x, u)
                            ELSE [i \in 1..Len(x) |-> PolyAt(Mod.terms[i], x \o u)]))
Fx(Mod, x, u) == MRnd(Eager(IF Mod.kind = "car" THEN CarFx(Mod.dt, x, u)
                            ELSE [i \in 1..Len(x) |-> [j \in 1..Len(x) |-> DPolyAt(Mod.terms[i], x \o u, j)]]))
Fu(Mod, x, u) == MRnd(Eager(IF Mod.kind = "car" THEN CarFu(Mod.dt, x, u)
                            ELSE [i \in 1..Len(x) |-> [j \in 1..Len(u) |-> DPolyAt(Mod.terms[i], x \o u, Len(x) + j)]]))

RECURSIVE NSim(_, _, _)
NSim(Mod, x0, us) == IF us = <<>> THEN << x0 >>
                     ELSE LET k == Len(us) xs == NSim(Mod, x0, SubSeq(us, 1, k - 1)) IN Append(xs, F(Mod, xs[k], us[k]))

\* P with its dynamics replaced by the first-order expansion along (us, xs).
Lin(P, Mod, us, xs) ==
  LET A == Eager([k \in 1..P.T |-> Fx(Mod, xs[k], us[k])])
      B == Eager([k \in 1..P.T |-> Fu(Mod, xs[k], us[k])])
      c == Eager([k \in 1..P.T |-> VSub(F(Mod, xs[k], us[k]), VAdd(MVec(A[k], xs[k]), MVec(B[k], us[k])))])
  IN  Eager([P EXCEPT !.F = A, !.L = B, !.c = c])
Iterate(P, Mod, us, xs) == LET Q == Lin(P, Mod, us, xs) IN OptTraj(Q, xs[1], Laws(Q, Vals(Q)))
NCost(P, Mod, x0, us) == LCost(P, NSim(Mod, x0, us), us)
NGradient(P, Mod, us, xs) == Gradient(Lin(P, Mod, us, xs), xs, us)
=============================================================================
