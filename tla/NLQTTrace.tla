----------------------------- MODULE NLQTTrace -----------------------------
(* Trace specification of nonlinear LQ tracking (NumPy and TensorFlow). *)
EXTENDS TraceBase
INSTANCE NLQT WITH Bits <- 400

VARIABLES P, Mod
vars == <<s, l, P, Mod>>
Init == s \in 1..Len(Sessions) /\ l = 1 /\ P = <<>> /\ Mod = <<>>
Keep == Consume /\ UNCHANGED <<P, Mod>>
Problem == Op("problem") /\ P' = Ev.P /\ Mod' = Ev.Mod /\ Judge(OK) /\ Consume

SeqMax(a, mat) == VMaxAbs(Eager([k \in 1..Len(a) |-> IF mat THEN MMaxAbs(a[k]) ELSE VMaxAbs(a[k])]))
VSeqClose(a, b, rtol) == Len(a) = Len(b) /\ LET at == RMul(rtol, RAdd(R1, SeqMax(b, FALSE))) IN \A k \in 1..Len(b) : VClose(a[k], b[k], at, rtol)
MSeqClose(a, b, rtol) == Len(a) = Len(b) /\ LET at == RMul(rtol, RAdd(R1, SeqMax(b, TRUE))) IN \A k \in 1..Len(b) : MClose(a[k], b[k], at, rtol)
VSeq(a, k, n) == Len(a) = k /\ \A i \in 1..k : IsVec(a[i], n)
MSeq(a, k, m, n) == Len(a) = k /\ \A i \in 1..k : IsMat(a[i], m, n)
Rtol == "1e-7"

Linearize ==
  /\ Op("linearize")
  /\ Judge(LET Q == Lin(P, Mod, Ev.us, Ev.xs) IN
       Chk(MSeq(Ev.F, P.T, P.n, P.n) /\ MSeq(Ev.L, P.T, P.n, P.m) /\ VSeq(Ev.c, P.T, P.n), "shape",
       Chk(MSeqClose(Ev.F, Q.F, "1e-10"), "state-jacobian",
       Chk(MSeqClose(Ev.L, Q.L, "1e-10"), "control-jacobian",
       Chk(VSeqClose(Ev.c, Q.c, "1e-10"), "offset", OK)))))
  /\ Keep
IterateCall ==
  /\ Op("iterate")
  /\ Judge(LET o == Iterate(P, Mod, Ev.us, Ev.xs) IN
       Chk(VSeq(Ev.xs2, P.T + 1, P.n) /\ VSeq(Ev.us2, P.T, P.m), "trajectory-shape",
       Chk(VSeqClose(Ev.us2, o.us, Rtol), "controls-optimal-for-linearised",
       Chk(VSeqClose(Ev.xs2, o.xs, Rtol), "states-optimal-for-linearised",
       \* affine dynamics: the exact optimum, which obeys the dynamics themselves
       Chk(Ev.affine => VSeqClose(Ev.xs2, NSim(Mod, Ev.xs[1], Ev.us2), Rtol), "affine-states-follow-dynamics",
       Chk(Ev.affine => LET g == NGradient(P, Mod, Ev.us2, NSim(Mod, Ev.xs[1], Ev.us2)) IN
                        RLe(SeqMax(g, FALSE), RMul("1e-6", RAdd(R1, SeqMax(NGradient(P, Mod, Ev.us, Ev.xs), FALSE)))), "affine-stationary", OK))))))
  /\ Keep
\* A trajectory that the iteration (run long) no longer moves.
Fixed ==
  /\ Op("fixed_point")
  /\ Judge(LET g == NGradient(P, Mod, Ev.us, Ev.xs) g0 == NGradient(P, Mod, Ev.us0, NSim(Mod, Ev.xs[1], Ev.us0)) IN
       Chk(VSeqClose(Ev.xs, NSim(Mod, Ev.xs[1], Ev.us), "1e-6"), "fixed-point-follows-dynamics",
       Chk(RLe(SeqMax(g, FALSE), RMul("1e-5", RAdd(R1, SeqMax(g0, FALSE)))), "fixed-point-stationary", OK)))
  /\ Keep
Simulate ==
  /\ Op("simulate")
  /\ Judge(Chk(VSeq(Ev.xs, Len(Ev.us) + 1, P.n), "trajectory-shape",
           Chk(VSeqClose(Ev.xs, NSim(Mod, Ev.x0, Ev.us), "1e-9"), "follows-dynamics", OK)))
  /\ Keep
CostCall ==
  /\ Op("cost")
  /\ Judge(Chk(RFinite(Ev.val), "cost-number",
           LET xs == NSim(Mod, Ev.x0, Ev.us) IN
           Chk(RLe(RAbs(RSub(Ev.val, LCost(P, xs, Ev.us))), RMul("1e-9", LCostScale(P, xs, Ev.us))), "cost-of-simulated-trajectory", OK)))
  /\ Keep
Next == Problem \/ Linearize \/ IterateCall \/ Fixed \/ Simulate \/ CostCall
Spec == Init /\ [][Next]_vars
=============================================================================
