---------------------------- MODULE PararealCLQT ----------------------------
(* The three Parareal passes of continuous-time LQ tracking. *)
EXTENDS CLQT, Parareal

Corr(n, a, b) == Eager([i \in 1..Len(n) |-> MAdd(n[i], MSub(a[i], b[i]))])
DtC(T, blocks) == RDiv(T, blocks)
DtF(T, blocks, steps) == RDiv(T, blocks * steps)
Last(z) == z[Len(z)]
\* The grid values of all blocks, a point shared by two blocks taken from the block behind it.
Joined(part, blocks, steps) ==
  Eager([i \in 1..(blocks * steps + 1) |-> IF i = blocks * steps + 1 THEN part[blocks][steps + 1] ELSE part[1 + (i - 1) \div steps][1 + ((i - 1) % steps)]])
JoinedSteps(part, blocks, steps) == Eager([i \in 1..(blocks * steps) |-> part[1 + (i - 1) \div steps][1 + ((i - 1) % steps)]])

\* Values <<S, v>>: the known boundary is the end; block j of the recursion is block blocks + 1 - j in time.
ParaBackward(P, T, blocks, steps, niter) ==
  LET h == DtF(T, blocks, steps) H == DtC(T, blocks)
      F(j, x) == Head(Backward(P, x[1], x[2], Grid(R0, h, (blocks - j) * steps), h, steps))
      G(j, x) == RicStep(P, x, Grid(R0, H, blocks - j + 1), RNeg(H))
      y == PRun(F, G, Corr, << P.ST, P.vT >>, blocks, niter)
      part == Eager([k \in 1..blocks |-> LET x == y[blocks - k + 1] IN Backward(P, x[1], x[2], Grid(R0, h, (k - 1) * steps), h, steps)])
      joined == Joined(part, blocks, steps)
      lawof == JoinedSteps(part, blocks, steps)
      N == blocks * steps
  IN  Eager([vals |-> joined,
             K |-> [i \in 1..N |-> LawK(P, lawof[i], Grid(R0, h, i - 1))],
             d |-> [i \in 1..N |-> LawD(P, lawof[i], Grid(R0, h, i - 1))]])
\* States under given laws; a coarse step uses the law at the start of its block.
ParaForward(P, T, x0, K, d, blocks, steps, niter, zoh) ==
  LET h == DtF(T, blocks, steps) H == DtC(T, blocks)
      fine(k, x) == Roll(P, x, Seg(K, k, steps), Seg(d, k, steps), Grid(R0, h, (k - 1) * steps), h, zoh, steps)
      at(k) == (k - 1) * steps + 1
      F(j, x) == << Last(fine(j, x[1]).xs) >>
      G(j, x) == << Last(Roll(P, x[1], SubSeq(K, at(j), at(j)), SubSeq(d, at(j), at(j)), Grid(R0, H, j - 1), H, zoh, 1).xs) >>
      y == PRun(F, G, Corr, << x0 >>, blocks, niter)
      part == Eager([k \in 1..blocks |-> fine(k, y[k][1])])
  IN  Eager([xs |-> Joined([k \in 1..blocks |-> part[k].xs], blocks, steps), us |-> JoinedSteps([k \in 1..blocks |-> part[k].us], blocks, steps)])
\* Forward values <<A, b, C>>.
ParaValues(P, T, x0, blocks, steps, niter) ==
  LET h == DtF(T, blocks, steps) H == DtC(T, blocks)
      fine(k, x) == ForwTo(P, x, Grid(R0, h, (k - 1) * steps), h, steps)
      F(j, x) == Last(fine(j, x))
      G(j, x) == Fw3Step(P, x, Grid(R0, H, j - 1), H)
      y == PRun(F, G, Corr, << MZero(P.n, P.n), x0, MZero(P.n, P.n) >>, blocks, niter)
  IN  Joined(Eager([k \in 1..blocks |-> fine(k, y[k])]), blocks, steps)
=============================================================================
