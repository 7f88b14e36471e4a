-------------------------------- MODULE LQT --------------------------------
(***************************************************************************)
(* Linear quadratic tracking (and regulation).                             *)
(*                                                                         *)
(* A problem P is [T, n, m, F, L, c, X, H, r, U, Z, s, M, XT, HT, rT]:     *)
(* sequences over the stages 1..T, and the terminal cost;                  *)
(*    x' = F x + c + L u                                                   *)
(*    cost = sum 1/2 |H x - r|^2_X + 1/2 |Z u - s|^2_U                     *)
(*               + (H x - r)' M (Z u - s)   + 1/2 |HT x - rT|^2_XT         *)
(* Value functions are V(x) = 1/2 x'Sx - v'x + q, laws u = -K x + d.       *)
(***************************************************************************)
EXTENDS Mat, FiniteSets

\* Precision kept along recursions (significant bits); 0 = exact.
CONSTANT Bits
Rnd(x) == IF Bits = 0 THEN x ELSE RRnd(x, Bits)
VRnd(v) == Eager([i \in 1..Len(v) |-> Rnd(v[i])])
MRnd(A) == Eager([i \in 1..Len(A) |-> VRnd(A[i])])

--------------------------------------------------------------------------
(* The stage cost as one quadratic form in (x, u). *)
QXX(P, k) == MMul3(MT(P.H[k]), P.X[k], P.H[k])
QUU(P, k) == MMul3(MT(P.Z[k]), P.U[k], P.Z[k])
QUX(P, k) == MT(MMul3(MT(P.H[k]), P.M[k], P.Z[k]))
LX(P, k)  == VNeg(MVec(MT(P.H[k]), VAdd(MVec(P.X[k], P.r[k]), MVec(P.M[k], P.s[k]))))
LU(P, k)  == VNeg(MVec(MT(P.Z[k]), VAdd(MVec(P.U[k], P.s[k]), MVec(MT(P.M[k]), P.r[k]))))
LC(P, k)  == RAdd(RMul(RHalf, RAdd(MQuad(P.r[k], P.X[k], P.r[k]), MQuad(P.s[k], P.U[k], P.s[k]))), MQuad(P.r[k], P.M[k], P.s[k]))

Term(P) == [S |-> Eager(MMul3(MT(P.HT), P.XT, P.HT)), v |-> Eager(MVec(MT(P.HT), MVec(P.XT, P.rT))),
            q |-> RMul(RHalf, MQuad(P.rT, P.XT, P.rT))]

\* The law that is best at stage k when the value afterwards is N.
Law(P, k, N) ==
  LET G == Eager(MAdd(QUU(P, k), MMul3(MT(P.L[k]), N.S, P.L[k])))
      Gx == Eager(MAdd(QUX(P, k), MMul3(MT(P.L[k]), N.S, P.F[k])))
      g == Eager(VAdd(LU(P, k), MVec(MT(P.L[k]), VSub(MVec(N.S, P.c[k]), N.v))))
  IN  [K |-> MRnd(MSolve(G, Gx)), d |-> VRnd(VNeg(MSolveV(G, g))), G |-> G, Gx |-> Gx, g |-> g]
\* The value before stage k.
Before(P, k, N) ==
  LET W == Law(P, k, N)
      w == Eager(VSub(MVec(N.S, P.c[k]), N.v))
  IN  [S |-> MRnd(MSym(MSub(MAdd(QXX(P, k), MMul3(MT(P.F[k]), N.S, P.F[k])), MMul(MT(W.Gx), W.K)))),
       v |-> VRnd(VNeg(VAdd(VAdd(LX(P, k), MVec(MT(P.F[k]), w)), MVec(MT(W.Gx), W.d)))),
       q |-> Rnd(RAdd(RAdd(LC(P, k), RMul(RHalf, VDot(W.g, W.d))),
                      RAdd(N.q, RSub(RMul(RHalf, MQuad(P.c[k], N.S, P.c[k])), VDot(N.v, P.c[k])))))]
RECURSIVE ValsFrom(_, _)
ValsFrom(P, k) == IF k = P.T + 1 THEN << Term(P) >>
                  ELSE LET rest == ValsFrom(P, k + 1) IN << Eager(Before(P, k, Head(rest))) >> \o rest
Vals(P) == ValsFrom(P, 1)
Laws(P, V) == Eager([k \in 1..P.T |-> LET W == Law(P, k, V[k + 1]) IN [K |-> W.K, d |-> W.d]])
ValueAt(N, x) == RAdd(RSub(RMul(RHalf, MQuad(x, N.S, x)), VDot(N.v, x)), N.q)

--------------------------------------------------------------------------
(* Trajectories. *)
StepX(P, k, x, u) == VRnd(VAdd(VAdd(MVec(P.F[k], x), P.c[k]), MVec(P.L[k], u)))
RECURSIVE Sim(_, _, _)
Sim(P, x0, us) == IF us = <<>> THEN <<x0>>
                  ELSE LET k == Len(us) xs == Sim(P, x0, SubSeq(us, 1, k - 1))
                       IN  Append(xs, StepX(P, k, xs[k], us[k]))
\* Under laws: [xs, us].
RECURSIVE ClosedTo(_, _, _, _, _)
ClosedTo(P, x0, K, d, k) ==
  IF k = 0 THEN [xs |-> <<x0>>, us |-> <<>>]
  ELSE LET t == ClosedTo(P, x0, K, d, k - 1)
           u == VRnd(VSub(d[k], MVec(K[k], t.xs[k])))
       IN  Eager([xs |-> Append(t.xs, StepX(P, k, t.xs[k], u)), us |-> Append(t.us, u)])
Closed(P, x0, K, d) == ClosedTo(P, x0, K, d, P.T)
OptTraj(P, x0, W) == Closed(P, x0, [k \in 1..P.T |-> W[k].K], [k \in 1..P.T |-> W[k].d])

\* All cost terms of a trajectory (their sum is the cost).
StageTerms(P, k, x, u) ==
  LET a == VSub(MVec(P.H[k], x), P.r[k]) b == VSub(MVec(P.Z[k], u), P.s[k])
  IN  << RMul(RHalf, MQuad(a, P.X[k], a)), RMul(RHalf, MQuad(b, P.U[k], b)), MQuad(a, P.M[k], b) >>
TermTerm(P, x) == LET a == VSub(MVec(P.HT, x), P.rT) IN RMul(RHalf, MQuad(a, P.XT, a))
RECURSIVE CostTerms(_, _, _, _)
CostTerms(P, xs, us, k) == IF k = 0 THEN << TermTerm(P, xs[Len(xs)]) >>
                           ELSE CostTerms(P, xs, us, k - 1) \o Eager(StageTerms(P, k, xs[k], us[k]))
LCost(P, xs, us) == RSum(CostTerms(P, xs, us, Len(us)))
LCostScale(P, xs, us) == LET t == CostTerms(P, xs, us, Len(us)) IN RSum(Eager([i \in 1..Len(t) |-> RAbs(t[i])]))

\* The gradient of the cost in the controls, by the adjoint recursion.
Adj(P, k, x, u, lam) == Eager(VAdd(VAdd(VAdd(MVec(QXX(P, k), x), MVec(MT(QUX(P, k)), u)), LX(P, k)), MVec(MT(P.F[k]), lam)))
RECURSIVE Adjs(_, _, _, _)
Adjs(P, xs, us, k) == IF k = P.T + 1 THEN << Eager(MVec(MT(P.HT), MVec(P.XT, VSub(MVec(P.HT, xs[k]), P.rT)))) >>
                      ELSE LET rest == Adjs(P, xs, us, k + 1) IN << Adj(P, k, xs[k], us[k], Head(rest)) >> \o rest
Gradient(P, xs, us) ==
  LET lam == Adjs(P, xs, us, 2)     \* lam[j] belongs to stage j + 1
  IN  [k \in 1..P.T |-> Eager(VAdd(VAdd(VAdd(MVec(QUU(P, k), us[k]), MVec(QUX(P, k), xs[k])), LU(P, k)), MVec(MT(P.L[k]), lam[k])))]

--------------------------------------------------------------------------
(* Conditional value functions of a segment,                               *)
(*   V(x, z) = max_l 1/2 x'Jx - eta'x - l'(z - A x - b) - 1/2 l'C l,       *)
(* the elements of the parallel passes.                                    *)
Stage(P, k) ==
  LET Quu == Eager(QUU(P, k))
      A == MSub(P.F[k], MMul(P.L[k], MSolve(Quu, QUX(P, k))))
      b == VSub(P.c[k], MVec(P.L[k], MSolveV(Quu, LU(P, k))))
      C == MMul(P.L[k], MSolve(Quu, MT(P.L[k])))
      J == MSub(QXX(P, k), MMul(MT(QUX(P, k)), MSolve(Quu, QUX(P, k))))
      eta == VSub(MVec(MT(QUX(P, k)), MSolveV(Quu, LU(P, k))), LX(P, k))
  IN  Eager([A |-> A, b |-> b, C |-> C, eta |-> eta, J |-> J])
Last(P) == LET N == Term(P) IN Eager([A |-> MZero(P.n, P.n), b |-> VZero(P.n), C |-> MZero(P.n, P.n), eta |-> N.v, J |-> N.S])
Comb(E1, E2) ==
  LET n == Len(E1.b)
      G == Eager(MAdd(MId(n), MMul(E1.C, E2.J)))
      Ht == Eager(MAdd(MId(n), MMul(E2.J, E1.C)))
  IN  Eager([A |-> MMul(E2.A, MSolve(G, E1.A)),
       b |-> VAdd(MVec(E2.A, MSolveV(G, VAdd(E1.b, MVec(E1.C, E2.eta)))), E2.b),
       C |-> MAdd(MMul(E2.A, MSolve(G, MMul(E1.C, MT(E2.A)))), E2.C),
       eta |-> VAdd(MVec(MT(E1.A), MSolveV(Ht, VSub(E2.eta, MVec(E2.J, E1.b)))), E1.eta),
       J |-> MAdd(MMul(MT(E1.A), MSolve(Ht, MMul(E2.J, E1.A))), E1.J)])
\* The value before a segment when the value after it is (S, v).
Apply(E, S, v) ==
  LET n == Len(E.b) Ht == Eager(MAdd(MId(n), MMul(S, E.C)))
  IN  [S |-> Eager(MAdd(MMul(MT(E.A), MSolve(Ht, MMul(S, E.A))), E.J)),
       v |-> Eager(VAdd(MVec(MT(E.A), MSolveV(Ht, VSub(v, MVec(S, E.b)))), E.eta))]
\* The state after the segment from x when the value after it is (S, v).
Land(E, x, S, v) ==
  LET n == Len(E.b) G == Eager(MAdd(MId(n), MMul(E.C, S)))
  IN  Eager(MSolveV(G, VAdd(VAdd(MVec(E.A, x), E.b), MVec(E.C, v))))
CombFC(E1, E2) == Eager([F |-> MMul(E2.F, E1.F), c |-> VAdd(MVec(E2.F, E1.c), E2.c)])
=============================================================================
