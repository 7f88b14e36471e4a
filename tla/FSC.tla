-------------------------------- MODULE FSC --------------------------------
(***************************************************************************)
(* Finite-state optimal control by dynamic programming, and its            *)
(* parallelisation over time.                                              *)
(*                                                                         *)
(* A problem P is [T, nx, nu, f, L, LT]: for stage k \in 1..T, state       *)
(* x \in 1..nx and control u \in 1..nu, f[k][x][u] is the next state and   *)
(* L[k][x][u] the stage cost; LT[x] is the terminal cost.  (The code       *)
(* numbers stages, states and controls from 0; the trace encodes indices   *)
(* as the code returns them and the operators below add 1.)                *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets

States(P) == 1..P.nx
Controls(P) == 1..P.nu

--------------------------------------------------------------------------
(* The sequential dynamic program. *)

\* Cost of applying u in x at stage k when Vn is the value afterwards.
QVal(P, k, x, u, Vn) == RAdd(P.L[k][x][u], Vn[P.f[k][x][u] + 1])
Bellman(P, k, Vn) == Eager([x \in 1..P.nx |-> RMinOf([u \in 1..P.nu |-> QVal(P, k, x, u, Vn)])])

\* <<V_k, ..., V_{T+1}>> by backward recursion.
RECURSIVE ValuesFrom(_, _)
ValuesFrom(P, k) == IF k = P.T + 1 THEN << Eager([x \in 1..P.nx |-> R(P.LT[x])]) >>
                    ELSE LET rest == ValuesFrom(P, k + 1)
                         IN  << Bellman(P, k, Head(rest)) >> \o rest
Values(P) == ValuesFrom(P, 1)

\* Cost-to-come from x0: W[k][x], "inf" when x cannot be reached at stage k.
ForwardStep(P, k, W) ==
  Eager([y \in 1..P.nx |->
     LET c == [i \in 1..(P.nx * P.nu) |->
                 LET x == ((i - 1) \div P.nu) + 1
                     u == ((i - 1) % P.nu) + 1
                 IN  IF P.f[k][x][u] + 1 = y THEN RAdd(W[x], P.L[k][x][u]) ELSE "inf"]
     IN  RMinOf(c)])
RECURSIVE ComeTo(_, _, _)
ComeTo(P, x0, k) == IF k = 1 THEN << Eager([x \in 1..P.nx |-> IF x = x0 THEN R0 ELSE "inf"]) >>
                    ELSE LET prev == ComeTo(P, x0, k - 1)
                         IN  Append(prev, ForwardStep(P, k - 1, prev[k - 1]))
CostToCome(P, x0) == ComeTo(P, x0, P.T + 1)

\* States and cost under a control sequence (both as the code numbers them).
RECURSIVE Roll(_, _, _)
Roll(P, x0, us) == IF us = <<>> THEN <<x0>>
                   ELSE LET xs == Roll(P, x0, SubSeq(us, 1, Len(us) - 1))
                            k == Len(us)
                        IN  Append(xs, P.f[k][xs[k] + 1][us[k] + 1])
RECURSIVE StageSum(_, _, _, _)
StageSum(P, xs, us, k) == IF k = 0 THEN R0
                          ELSE RAdd(StageSum(P, xs, us, k - 1), P.L[k][xs[k] + 1][us[k] + 1])
Cost(P, xs, us) == RAdd(StageSum(P, xs, us, Len(us)), P.LT[xs[Len(xs)] + 1])

--------------------------------------------------------------------------
(* Parallel-in-time elements: conditional values V[x][y] of a segment, the *)
(* least cost of going from x to y over it, combined by the min-plus       *)
(* product; and state maps of a segment, combined by composition.          *)

Elem(P, k) == Eager([x \in 1..P.nx |-> [y \in 1..P.nx |->
                 RMinOf([u \in 1..P.nu |-> IF P.f[k][x][u] + 1 = y THEN R(P.L[k][x][u]) ELSE "inf"])]])
TermElem(P) == Eager([x \in 1..P.nx |-> [y \in 1..P.nx |-> R(P.LT[x])]])
CombineV(A, B) == Eager([i \in 1..Len(A) |-> [k \in 1..Len(B[1]) |->
                     RMinOf([j \in 1..Len(B) |-> RAdd(A[i][j], B[j][k])])]])
CombineF(f, g) == Eager([i \in 1..Len(f) |-> g[f[i] + 1]])      \* 0-based values
=============================================================================
