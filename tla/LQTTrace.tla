------------------------------ MODULE LQTTrace ------------------------------
(***************************************************************************)
(* Trace specification of linear quadratic tracking and regulation (NumPy  *)
(* and TensorFlow), condensing, and what builds on them.  A session        *)
(* defines a problem; the state is the problem with its value functions    *)
(* and laws (exact recursion of LQT, kept to 400 bits).                    *)
(***************************************************************************)
EXTENDS TraceBase
INSTANCE LQT WITH Bits <- 400

VARIABLES P, V, W
vars == <<s, l, P, V, W>>
None == <<>>
Init == s \in 1..Len(Sessions) /\ l = 1 /\ P = None /\ V = None /\ W = None
Keep == Consume /\ UNCHANGED <<P, V, W>>

DefProblem == /\ Op("problem")
              /\ P' = Ev.P /\ V' = Vals(Ev.P) /\ W' = Laws(Ev.P, V')
              /\ Judge(OK) /\ Consume

Rtol == "1e-7"
\* Two sequences of vectors or matrices, within a tolerance relative to the largest entry of all.
SeqMax(a, mat) == VMaxAbs(Eager([k \in 1..Len(a) |-> IF mat THEN MMaxAbs(a[k]) ELSE VMaxAbs(a[k])]))
VSeqClose(a, b, rtol) == Len(a) = Len(b) /\ LET at == RMul(rtol, RAdd(R1, SeqMax(b, FALSE))) IN \A k \in 1..Len(b) : VClose(a[k], b[k], at, rtol)
MSeqClose(a, b, rtol) == Len(a) = Len(b) /\ LET at == RMul(rtol, RAdd(R1, SeqMax(b, TRUE))) IN \A k \in 1..Len(b) : MClose(a[k], b[k], at, rtol)
VSeq(a, k, n) == Len(a) = k /\ \A i \in 1..k : IsVec(a[i], n)
MSeq(a, k, m, n) == Len(a) = k /\ \A i \in 1..k : IsMat(a[i], m, n)

Ss == Eager([k \in 1..(P.T + 1) |-> V[k].S])
vs == Eager([k \in 1..(P.T + 1) |-> V[k].v])
Ks == Eager([k \in 1..P.T |-> W[k].K])
ds == Eager([k \in 1..P.T |-> W[k].d])

\* Control laws and, when the call returns them (Ev.vals), value functions.
Backward ==
  /\ Op("backward")
  /\ Judge(
       Chk(MSeq(Ev.K, P.T, P.m, P.n), "gain-shape",
       Chk(MSeqClose(Ev.K, Ks, Rtol), "gain-optimal",
       Chk(Ev.law => VSeq(Ev.d, P.T, P.m), "offset-shape",
       Chk(Ev.law => VSeqClose(Ev.d, ds, Rtol), "offset-optimal",
       Chk(Ev.vals => MSeq(Ev.S, P.T + 1, P.n, P.n), "value-matrix-shape",
       Chk(Ev.vals => MSeqClose(Ev.S, Ss, Rtol), "value-matrix-optimal",
       Chk((Ev.vals /\ Ev.law) => VSeq(Ev.v, P.T + 1, P.n), "value-vector-shape",
       Chk((Ev.vals /\ Ev.law) => VSeqClose(Ev.v, vs, Rtol), "value-vector-optimal", OK)))))))))
  /\ Keep

TrajShape == VSeq(Ev.xs, P.T + 1, P.n) /\ VSeq(Ev.us, P.T, P.m)
\* Roll-out of a given law (any law; Ev.optimal when it is the optimal one).
Forward ==
  /\ Op("forward")
  /\ Judge(LET t == Closed(P, Ev.x0, Ev.K, Ev.d) IN
       Chk(TrajShape, "trajectory-shape",
       Chk(VSeqClose(Ev.xs, t.xs, "1e-9"), "states-follow-law",
       Chk(VSeqClose(Ev.us, t.us, "1e-9"), "controls-follow-law",
       Chk(Ev.optimal => LET o == OptTraj(P, Ev.x0, W) IN VSeqClose(Ev.xs, o.xs, Rtol) /\ VSeqClose(Ev.us, o.us, Rtol), "trajectory-optimal", OK)))))
  /\ Keep

\* A call that must return the optimal trajectory.
Optimal ==
  /\ Op("optimal")
  /\ Judge(LET o == OptTraj(P, Ev.x0, W) IN
       Chk(TrajShape, "trajectory-shape",
       Chk(VSeqClose(Ev.xs, o.xs, Rtol), "states-optimal",
       Chk(VSeqClose(Ev.us, o.us, Rtol), "controls-optimal", OK))))
  /\ Keep

Simulate ==
  /\ Op("simulate")
  /\ Judge(
       Chk(VSeq(Ev.xs, Len(Ev.us) + 1, P.n), "trajectory-shape",
       Chk(VSeqClose(Ev.xs, Sim(P, Ev.x0, Ev.us), "1e-10"), "follows-dynamics", OK)))
  /\ Keep

CostCall ==
  /\ Op("cost")
  /\ Judge(Chk(RFinite(Ev.val), "cost-number",
           Chk(RLe(RAbs(RSub(Ev.val, LCost(P, Ev.xs, Ev.us))), RMul("1e-10", LCostScale(P, Ev.xs, Ev.us))), "cost-value",
           \* at the optimum the reported cost is the value of the initial state
           Chk(Ev.optimal => RLe(RAbs(RSub(Ev.val, ValueAt(V[1], Ev.xs[1]))), RMul(Rtol, RAdd(LCostScale(P, Ev.xs, Ev.us), RAbs(V[1].q)))), "cost-is-minimal-value", OK))))
  /\ Keep

\* Combination of arbitrary elements.
ElemClose(a, b, rtol) == /\ MClose(a.A, b.A, rtol, rtol) /\ VClose(a.b, b.b, rtol, rtol) /\ MClose(a.C, b.C, rtol, rtol)
                         /\ VClose(a.eta, b.eta, rtol, rtol) /\ MClose(a.J, b.J, rtol, rtol)
CombineV == /\ Op("combine_V")
            /\ Judge(Chk(ElemClose(Ev.C, Comb(Ev.A, Ev.B), "1e-9"), "combination", OK))
            /\ Keep
CombineF == /\ Op("combine_f")
            /\ Judge(LET b == CombFC(Ev.A, Ev.B) IN Chk(MClose(Ev.C.F, b.F, "1e-11", "1e-11") /\ VClose(Ev.C.c, b.c, "1e-11", "1e-11"), "composition", OK))
            /\ Keep

--------------------------------------------------------------------------
(* Time-invariant regulator: the problem is one stage (P.T = 1); XT is its *)
(* terminal cost.                                                          *)
Zero == [S |-> MZero(P.n, P.n), v |-> VZero(P.n), q |-> R0]
RECURSIVE RicN(_, _)
RicN(S, n) == IF n = 0 THEN S ELSE RicN(Eager(Before(P, 1, [Zero EXCEPT !.S = S])).S, n - 1)
GainFor(S) == Law(P, 1, [Zero EXCEPT !.S = S]).K
RECURSIVE RicSeq(_, _)       \* <<S_n, ..., S_0>>
RicSeq(S, n) == IF n = 0 THEN << S >> ELSE LET t == RicSeq(S, n - 1) IN << Eager(Before(P, 1, [Zero EXCEPT !.S = Head(t)])).S >> \o t
Rep(n) == [P EXCEPT !.T = n, !.F = [k \in 1..n |-> P.F[1]], !.L = [k \in 1..n |-> P.L[1]], !.c = [k \in 1..n |-> P.c[1]]]
RegBackward ==
  /\ Op("reg_backward")
  /\ Judge(LET S == Eager(RicSeq(P.XT, Ev.T)) IN
       Chk(MSeq(Ev.S, Ev.T + 1, P.n, P.n), "value-matrix-shape",
       Chk(MSeqClose(Ev.S, S, Rtol), "value-matrix-optimal",
       Chk(MSeq(Ev.K, Ev.T, P.m, P.n), "gain-shape",
       Chk(MSeqClose(Ev.K, Eager([k \in 1..Ev.T |-> GainFor(S[k + 1])]), Rtol), "gain-optimal", OK)))))
  /\ Keep
RegForward ==
  /\ Op("reg_forward")
  /\ Judge(LET t == Closed(Rep(Len(Ev.K)), Ev.x0, Ev.K, [k \in 1..Len(Ev.K) |-> VZero(P.m)]) IN
       Chk(VSeq(Ev.xs, Len(Ev.K) + 1, P.n) /\ VSeq(Ev.us, Len(Ev.K), P.m), "trajectory-shape",
       Chk(VSeqClose(Ev.xs, t.xs, "1e-9"), "states-follow-law",
       Chk(VSeqClose(Ev.us, t.us, "1e-9"), "controls-follow-law", OK))))
  /\ Keep
\* n steps of the fixed point iteration: the n-stage problem with terminal cost X.
RegIter ==
  /\ Op("reg_iter")
  /\ Judge(LET Sp == Eager(RicN(P.X[1], Ev.steps - 1)) IN
       Chk(IsMat(Ev.S, P.n, P.n) /\ IsMat(Ev.K, P.m, P.n), "shape",
       Chk(MClose(Ev.S, RicN(Sp, 1), Rtol, Rtol), "value-after-n-steps",
       Chk(MClose(Ev.K, GainFor(Sp), Rtol, Rtol), "gain-after-n-steps", OK))))
  /\ Keep
\* n doublings: the 2^n-stage problem without terminal cost, and the law that is best before it.
RegDouble ==
  /\ Op("reg_double")
  /\ Judge(LET S == Eager(RicN(P.X[1], 2 ^ Ev.steps - 1)) IN
       Chk(IsMat(Ev.S, P.n, P.n) /\ IsMat(Ev.K, P.m, P.n), "shape",
       Chk(MClose(Ev.S, S, Rtol, Rtol), "value-after-n-doublings",
       Chk(MClose(Ev.K, GainFor(S), Rtol, Rtol), "gain-after-n-doublings", OK))))
  /\ Keep
\* The stationary solution satisfies the fixed-point equation and stabilises.
RECURSIVE Pow2(_, _)
Pow2(A, n) == IF n = 0 THEN A ELSE LET B == Pow2(A, n - 1) IN MRnd(MMul(B, B))
Dare ==
  /\ Op("dare")
  /\ Judge(
       Chk(IsMat(Ev.S, P.n, P.n) /\ IsMat(Ev.K, P.m, P.n), "shape",
       Chk(MClose(Ev.S, RicN(Ev.S, 1), Rtol, Rtol), "fixed-point",
       Chk(MClose(Ev.K, GainFor(Ev.S), Rtol, Rtol), "gain",
       Chk(RLt(MMaxAbs(Pow2(MSub(P.F[1], MMul(P.L[1], Ev.K)), 14)), "1e-3"), "stabilises", OK)))))
  /\ Keep
\* The other solvers, run long, arrive at it.
Limit ==
  /\ Op("limit")
  /\ Judge(Chk(MClose(Ev.S, Ev.Sd, "1e-6", "1e-6") /\ MClose(Ev.K, Ev.Kd, "1e-6", "1e-6"), "converges-to-stationary-solution", OK))
  /\ Keep

--------------------------------------------------------------------------
(* Condensing: Ev.Q is the condensed problem, with nb stages; its          *)
(* costs-to-go, as functions of the state, equal the original ones at the  *)
(* block boundaries (up to a constant, which the condensed cost drops).    *)
QShape(Q, nb, mc) == MSeq(Q.F, nb, P.n, P.n) /\ MSeq(Q.L, nb, P.n, mc) /\ VSeq(Q.c, nb, P.n) /\ MSeq(Q.H, nb, P.n, P.n) /\ VSeq(Q.r, nb, P.n)
                     /\ MSeq(Q.X, nb, P.n, P.n) /\ MSeq(Q.U, nb, mc, mc) /\ MSeq(Q.M, nb, P.n, mc) /\ VSeq(Q.s, nb, mc) /\ MSeq(Q.Z, nb, mc, mc)
Condensed ==
  /\ Op("condensed")
  /\ Judge(LET nb == (P.T + Ev.Nc - 1) \div Ev.Nc
               at == Eager([j \in 1..(nb + 1) |-> IF j = nb + 1 THEN P.T + 1 ELSE (j - 1) * Ev.Nc + 1])
               CV == Vals(Ev.Q) IN
       Chk(Ev.Q.T = nb, "number-of-blocks",
       Chk(QShape(Ev.Q, nb, Ev.Nc * P.m), "condensed-shape",
       Chk(MSeqClose([j \in 1..(nb + 1) |-> CV[j].S], Eager([j \in 1..(nb + 1) |-> V[at[j]].S]), "1e-6"), "cost-to-go-at-boundaries",
       Chk(VSeqClose([j \in 1..(nb + 1) |-> CV[j].v], Eager([j \in 1..(nb + 1) |-> V[at[j]].v]), "1e-6"), "cost-to-go-at-boundaries", OK)))))
  /\ Keep
CondensedSol ==
  /\ Op("condensed_solution")
  /\ Judge(LET o == OptTraj(P, Ev.x0, W) IN
       Chk(TrajShape, "trajectory-shape",
       Chk(VSeqClose(Ev.xs, o.xs, "1e-6"), "states-optimal",
       Chk(VSeqClose(Ev.us, o.us, "1e-6"), "controls-optimal", OK))))
  /\ Keep

Next == DefProblem \/ Backward \/ Forward \/ Optimal \/ Simulate \/ CostCall \/ CombineV \/ CombineF
        \/ RegBackward \/ RegForward \/ RegIter \/ RegDouble \/ Dare \/ Limit \/ Condensed \/ CondensedSol
Spec == Init /\ [][Next]_vars
=============================================================================
