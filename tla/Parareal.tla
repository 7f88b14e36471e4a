------------------------------ MODULE Parareal ------------------------------
(***************************************************************************)
(* The Parareal iteration.  Block boundaries are numbered in the order in  *)
(* which information travels: boundary 0 is the known one, boundary j is   *)
(* reached from boundary j - 1 through block j.  F(j, x) carries x through *)
(* block j in fine steps, G(j, x) in one coarse step.                      *)
(*                                                                         *)
(*   start:      y(0) = x0, y(j) = G(j, y(j-1)), g(j) = y(j)                *)
(*   iteration:  f(j) = F(j, y(j-1))  (all blocks at once), then in order   *)
(*               g'(j) = G(j, y'(j-1)), y'(j) = g'(j) + f(j) - g(j)          *)
(*                                                                         *)
(* The sequences below have length blocks + 1: index j + 1 is boundary j.  *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL INSTANCE Num

\* x0, F(1, x0), F(2, F(1, x0)), ...
Chain(F(_, _), x0, blocks) ==
  LET RECURSIVE go(_)
      go(j) == IF j = 0 THEN << x0 >> ELSE LET p == go(j - 1) IN Append(p, F(j, p[j]))
  IN  Eager(go(blocks))

PStart(G(_, _), x0, blocks) == LET y == Chain(G, x0, blocks) IN [y |-> y, g |-> y]
Fine(F(_, _), y, blocks) == Eager([j \in 1..(blocks + 1) |-> IF j = 1 THEN y[1] ELSE F(j - 1, y[j - 1])])
Sweep(G(_, _), Fix(_, _, _), f, g, blocks) ==
  LET RECURSIVE go(_)
      go(j) == IF j = 0 THEN [y |-> << f[1] >>, g |-> << f[1] >>]
               ELSE LET p == go(j - 1) n == G(j, p.y[j]) IN Eager([y |-> Append(p.y, Fix(n, f[j + 1], g[j + 1])), g |-> Append(p.g, n)])
  IN  go(blocks)
PIterate(F(_, _), G(_, _), Fix(_, _, _), w, blocks) == Sweep(G, Fix, Fine(F, w.y, blocks), w.g, blocks)
PRun(F(_, _), G(_, _), Fix(_, _, _), x0, blocks, niter) ==
  LET RECURSIVE it(_)
      it(k) == IF k = 0 THEN PStart(G, x0, blocks) ELSE PIterate(F, G, Fix, it(k - 1), blocks)
  IN  it(niter).y
=============================================================================
