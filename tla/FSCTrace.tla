------------------------------ MODULE FSCTrace ------------------------------
(***************************************************************************)
(* Trace specification for finite-state control (NumPy and TensorFlow):    *)
(* a session defines a problem and then calls passes on it in any order.   *)
(* State: the problem, and its optimal values (Bellman recursion of FSC).  *)
(***************************************************************************)
EXTENDS TraceBase, FSC

VARIABLES prob, opt
vars == <<s, l, prob, opt>>

Init == /\ s \in 1..Len(Sessions) /\ l = 1
        /\ prob = "none" /\ opt = "none"

\* Absolute tolerance from the magnitudes in the problem.
Tol == LET m == Eager([k \in 1..(prob.T + 1) |-> VMaxAbs(opt[k])])
       IN  RMul("1e-10", RAdd("1", RAdd(VMaxAbs(m), prob.scale)))
Near(x, y) == RFinite(x) /\ RLe(RAbs(RSub(x, y)), Tol)

IsIdxSeq(q, n, hi) == Len(q) = n /\ \A i \in 1..n : q[i] \in 0..(hi - 1)

DefProblem == /\ Op("problem")
              /\ prob' = Ev.P
              /\ opt' = Values(Ev.P)
              /\ Judge(OK) /\ Consume

\* ---- backward passes: optimal values, and actions that attain them ----
ValuesOK(V) == \A k \in 1..(prob.T + 1) : \A x \in States(prob) : Near(V[k][x], opt[k][x])
Attains(k, x, u) == RLe(QVal(prob, k, x, u + 1, opt[k + 1]), RAdd(opt[k][x], Tol))
PolicyOK(u) == \A k \in 1..prob.T : \A x \in States(prob) : Attains(k, x, u[k][x])

Backward ==
  /\ Op("backward")
  /\ Judge(
       Chk(Len(Ev.u) = prob.T, "policy-length",
       Chk(\A k \in 1..prob.T : IsIdxSeq(Ev.u[k], prob.nx, prob.nu), "policy-range",
       Chk(Len(Ev.V) = prob.T + 1, "values-length",
       Chk(\A k \in 1..(prob.T + 1) : IsVec(Ev.V[k], prob.nx), "values-shape",
       Chk(ValuesOK(Ev.V), "values-optimal",
       Chk(PolicyOK(Ev.u), "policy-attains-value", OK)))))))
  /\ Consume /\ UNCHANGED <<prob, opt>>

\* ---- forward pass under a given policy (given in the event) ----
Follows(x0, us, xs) == xs = Roll(prob, x0, us)
ForwardBad ==
       Chk(IsIdxSeq(Ev.us, prob.T, prob.nu), "controls-range",
       Chk(IsIdxSeq(Ev.xs, prob.T + 1, prob.nx), "states-range",
       Chk(Ev.xs[1] = Ev.x0, "starts-at-x0",
       Chk(\A k \in 1..prob.T : Ev.us[k] = Ev.pol[k][Ev.xs[k] + 1], "control-from-policy",
       Chk(Follows(Ev.x0, Ev.us, Ev.xs), "follows-dynamics", OK)))))
OptimalTraj == Near(Cost(prob, Ev.xs, Ev.us), opt[1][Ev.x0 + 1])
Forward ==
  /\ Op("forward")
  /\ Judge(LET b == ForwardBad
           IN  IF b # OK THEN b
               ELSE Chk(Ev.optimal => OptimalTraj, "trajectory-optimal", OK))
  /\ Consume /\ UNCHANGED <<prob, opt>>

\* ---- value based forward passes: every state lies on an optimal
\*      trajectory (so with a unique optimum this is that trajectory) ----
OnOptimal(W, k, x) == RLe(RAdd(W[k][x], opt[k][x]), RAdd(opt[1][Ev.x0 + 1], Tol))
FwdBwd ==
  /\ Op("fwdbwd")
  /\ Judge(LET W == CostToCome(prob, Ev.x0 + 1) IN
       Chk(IsIdxSeq(Ev.us, prob.T, prob.nu), "controls-range",
       Chk(IsIdxSeq(Ev.xs, prob.T + 1, prob.nx), "states-range",
       Chk(Ev.xs[1] = Ev.x0, "starts-at-x0",
       Chk(\A k \in 1..(prob.T + 1) : OnOptimal(W, k, Ev.xs[k] + 1), "state-on-optimal-trajectory",
       Chk(\A k \in 1..prob.T : Attains(k, Ev.xs[k] + 1, Ev.us[k]), "control-optimal",
       Chk((\A k \in 1..(prob.T + 1) : Cardinality({x \in States(prob) : OnOptimal(W, k, x)}) = 1)
             => (Follows(Ev.x0, Ev.us, Ev.xs) \/ \E k \in 1..prob.T :
                   Cardinality({u \in 0..(prob.nu - 1) : Attains(k, Ev.xs[k] + 1, u)}) > 1),
           "follows-dynamics", OK)))))))
  /\ Consume /\ UNCHANGED <<prob, opt>>

Batch ==
  /\ Op("batch")
  /\ Judge(
       Chk(IsIdxSeq(Ev.us, prob.T, prob.nu), "controls-range",
       Chk(IsIdxSeq(Ev.xs, prob.T + 1, prob.nx), "states-range",
       Chk(Follows(Ev.x0, Ev.us, Ev.xs), "follows-dynamics",
       Chk(RIsNum(Ev.cost) /\ Near(Ev.cost, opt[1][Ev.x0 + 1]), "reported-minimum",
       Chk(OptimalTraj, "trajectory-optimal", OK))))))
  /\ Consume /\ UNCHANGED <<prob, opt>>

Simulate ==
  /\ Op("simulate")
  /\ Judge(
       Chk(IsIdxSeq(Ev.xs, Len(Ev.us) + 1, prob.nx), "states-range",
       Chk(Follows(Ev.x0, Ev.us, Ev.xs), "follows-dynamics", OK)))
  /\ Consume /\ UNCHANGED <<prob, opt>>

CostCall ==
  /\ Op("cost")
  /\ Judge(Chk(RIsNum(Ev.val) /\ Near(Ev.val, Cost(prob, Ev.xs, Ev.us)), "cost-value", OK))
  /\ Consume /\ UNCHANGED <<prob, opt>>

\* ---- the combination rules on arbitrary elements ----
CombV ==
  /\ Op("combine_V")
  /\ Judge(Chk(MClose(Ev.C, CombineV(Ev.A, Ev.B), "1e-12", "1e-12"), "min-plus-product", OK))
  /\ Consume /\ UNCHANGED <<prob, opt>>
CombF ==
  /\ Op("combine_f")
  /\ Judge(Chk(Ev.h = CombineF(Ev.f, Ev.g), "composition", OK))
  /\ Consume /\ UNCHANGED <<prob, opt>>

\* ---- conversion to tensors keeps the problem ----
Convert ==
  /\ Op("convert")
  /\ Judge(
       Chk(Ev.f = prob.f, "tables",
       Chk(Len(Ev.L) = prob.T /\ \A k \in 1..prob.T : MClose(Ev.L[k], prob.L[k], 0, "1e-15"), "stage-costs",
       Chk(VClose(Ev.LT, prob.LT, 0, "1e-15"), "terminal-cost", OK))))
  /\ Consume /\ UNCHANGED <<prob, opt>>

Next == DefProblem \/ Backward \/ Forward \/ FwdBwd \/ Batch \/ Simulate \/ CostCall
        \/ CombV \/ CombF \/ Convert
Spec == Init /\ [][Next]_vars
=============================================================================
