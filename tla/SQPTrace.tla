----------------------------- MODULE SQPTrace -----------------------------
(* Trace specification of the SQP solvers (NumPy/JAX and TensorFlow). *)
EXTENDS TraceBase
INSTANCE SQP WITH Bits <- 600

VARIABLES Q
vars == <<s, l, Q>>
Init == s \in 1..Len(Sessions) /\ l = 1 /\ Q = <<>>
Keep == Consume /\ UNCHANGED Q
Problem == Op("problem") /\ Q' = Ev.Q /\ Judge(OK) /\ Consume

Close(a, b, rtol) == VClose(a, b, RMul(rtol, RAdd(R1, VMaxAbs(b))), rtol)
MCl(a, b, rtol) == MClose(a, b, RMul(rtol, RAdd(R1, MMaxAbs(b))), rtol)

\* One or many QPs (batched calls list all of them).
Qp ==
  /\ Op("qp")
  /\ Judge(Chk(Len(Ev.x) = Len(Ev.qp) /\ Len(Ev.lam) = Len(Ev.qp), "batch-size",
       LET W(i) == Ev.qp[i] K(i) == Kkt(W(i).G, W(i).c, W(i).A, W(i).b) IN
       Chk(\A i \in 1..Len(Ev.qp) : IsVec(Ev.x[i], Len(W(i).c)) /\ IsVec(Ev.lam[i], Len(W(i).b)), "shape",
       Chk(\A i \in 1..Len(Ev.qp) : Close(MVec(W(i).A, Ev.x[i]), W(i).b, "1e-8"), "feasible",
       Chk(\A i \in 1..Len(Ev.qp) : K(i) = <<>> \/ Close(Ev.x[i], K(i)[1], "1e-7"), "minimiser",
       Chk(\A i \in 1..Len(Ev.qp) : K(i) = <<>> \/ Close(Ev.lam[i], K(i)[2], "1e-7"), "multipliers",
       Chk(\A i \in 1..Len(Ev.qp) : LET w == W(i) g == VAdd(MVec(w.G, Ev.x[i]), w.c) IN
              VMaxAbs(VSub(g, MVec(MT(w.A), Ev.lam[i]))) # "nan"
              /\ RLe(VMaxAbs(VSub(g, MVec(MT(w.A), Ev.lam[i]))), RMul("1e-7", RAdd(R1, RAdd(VMaxAbs(g), VMaxAbs(Ev.lam[i]))))), "stationary", OK)))))))
  /\ Keep

\* Values and derivatives at the points Ev.x (with multipliers Ev.lam for the Lagrangian).
Derivs ==
  /\ Op("derivs")
  /\ Judge(LET n == Len(Ev.x) Id == 1..n IN
       Chk(Len(Ev.val) = n /\ Len(Ev.d1) = n, "batch-size",
       IF Ev.what = "fun" THEN
         Chk(Close(Ev.val, [i \in Id |-> Obj(Q, Ev.x[i])], "1e-10"), "value",
         Chk(\A i \in Id : Close(Ev.d1[i], DObj(Q, Ev.x[i]), "1e-10"), "gradient", OK))
       ELSE IF Ev.what = "con" THEN
         Chk(\A i \in Id : Close(Ev.val[i], Con(Q, Ev.x[i]), "1e-10"), "value",
         Chk(\A i \in Id : MCl(Ev.d1[i], DCon(Q, Ev.x[i]), "1e-10"), "jacobian", OK))
       ELSE
         Chk(Close(Ev.val, [i \in Id |-> Lag(Q, Ev.x[i], Ev.lam[i])], "1e-10"), "value",
         Chk(\A i \in Id : Close(Ev.d1[i], DLag(Q, Ev.x[i], Ev.lam[i]), "1e-10"), "gradient",
         Chk(Len(Ev.d2) = n /\ \A i \in Id : MCl(Ev.d2[i], HLag(Q, Ev.x[i], Ev.lam[i]), "1e-10"), "hessian", OK)))))
  /\ Keep

Update ==
  /\ Op("bfgs")
  /\ Judge(LET B == Ev.B n == Len(B) N == Ev.N size == RAdd(R1, RAdd(MMaxAbs(B), MMaxAbs(N)))
               sy == VDot(Ev.s, Ev.y) sBs == MQuad(Ev.s, B, Ev.s) edge == RLe(RAbs(sy), RMul("1e-12", sBs)) IN
       Chk(IsMat(N, n, n), "shape",
       Chk(Symmetric(N, RMul("1e-12", size)), "symmetric",
       IF Ev.how = "basic" THEN
         Chk((~edge /\ RLe(sy, R0)) => N = B, "unchanged-without-curvature",
         Chk((~edge /\ RGt(sy, R0)) => Close(MVec(N, Ev.s), Ev.y, "1e-8"), "secant",
         Chk(~edge => MCl(N, Basic(B, Ev.s, Ev.y), "1e-8"), "formula",
         Chk((~edge /\ RGt(sy, RMul("1e-6", sBs))) => PosDef(N), "positive-definite", OK))))
       ELSE
         Chk(PosDef(N), "positive-definite",
         Chk(Close(MVec(N, Ev.s), DampedY(B, Ev.s, Ev.y), "1e-8"), "damped-secant",
         Chk(MCl(N, Damped(B, Ev.s, Ev.y), "1e-8"), "formula", OK))))))
  /\ Keep

\* k full Newton steps from x0 with zero multipliers.
NewtonCall ==
  /\ Op("newton")
  /\ Judge(LET K == NewtonK(Q, Ev.x0, VZero(Q.m), Ev.k) K1 == NewtonK(Q, Ev.x0, VZero(Q.m), Ev.k - 1) IN
       Chk(IsVec(Ev.x, Q.n), "shape",
       Chk(K = <<>> \/ Close(Ev.x, K[1], "1e-7"), "newton-iterate",
       Chk(Ev.iter = Ev.k, "iteration-count",
       \* crit: the norm of the first-order conditions at the result (iterative solver) or of the Lagrangian gradient where the last step was taken (fixed number)
       LET want == IF Ev.fixed THEN Norm(DLag(Q, K1[1], K1[2])) ELSE Norm(DLag(Q, K[1], K[2]) \o Con(Q, K[1])) IN
       Chk(K = <<>> \/ Close(<<Ev.crit>>, <<want>>, "1e-6"), "criterion", OK)))))
  /\ Keep

\* All iterates of a batch: Ev.xs[k][i], Ev.lams[k][i], Ev.crits[k]; each step is judged from the recorded previous point.
NewtonSteps ==
  /\ Op("newton_steps")
  /\ Judge(LET nb == Len(Ev.x0) nk == Ev.k
               X(k, i) == IF k = 0 THEN Ev.x0[i] ELSE Ev.xs[k][i]
               La(k, i) == IF k = 0 THEN VZero(Q.m) ELSE Ev.lams[k][i]
               KK(k, i) == Newton(Q, X(k - 1, i), La(k - 1, i))
               RECURSIVE Gs(_, _)
               Gs(k, i) == IF i = 0 THEN <<>> ELSE Gs(k, i - 1) \o DLag(Q, X(k - 1, i), La(k - 1, i)) IN
       Chk(Len(Ev.xs) = nk /\ Len(Ev.lams) = nk /\ Len(Ev.crits) = nk /\ \A k \in 1..nk : Len(Ev.xs[k]) = nb /\ Len(Ev.lams[k]) = nb, "steps-recorded",
       Chk(\A k \in 1..nk : \A i \in 1..nb : IsVec(Ev.xs[k][i], Q.n) /\ IsVec(Ev.lams[k][i], Q.m), "shape",
       Chk(\A k \in 1..nk : \A i \in 1..nb : KK(k, i) = <<>> \/ Close(Ev.xs[k][i], KK(k, i)[1], "1e-7"), "newton-step",
       Chk(\A k \in 1..nk : \A i \in 1..nb : KK(k, i) = <<>> \/ Close(Ev.lams[k][i], KK(k, i)[2], "1e-7"), "multiplier-step",
       Chk(\A k \in 1..nk : Close(<<Ev.crits[k]>>, <<Norm(Gs(k, nb))>>, "1e-6"), "criterion", OK))))))
  /\ Keep

\* The solver ran with a tolerance.
Stopped ==
  /\ Op("stopped")
  /\ Judge(Chk(Ev.iter <= Ev.max_iter, "iteration-limit",
       LET conv == RIsNum(Ev.crit) /\ RLe(Ev.crit, Ev.tol) slack == RAdd(RMul("1001/1000", Ev.tol), "1e-13") IN
       Chk(Ev.iter < Ev.max_iter => conv, "stopped-before-tolerance",
       Chk(conv => IsVec(Ev.x, Q.n), "shape",
       Chk(conv => RLe(Norm(Con(Q, Ev.x)), slack), "feasible-within-tolerance",
       Chk(conv => RLe(KktResidual(Q, Ev.x), slack), "stationary-within-tolerance",
       \* quadratic objective and linear constraints: the exact solution
       Chk((conv /\ Ev.exact) => LET K == NewtonK(Q, Ev.x0, VZero(Q.m), 1) IN K = <<>> \/ Close(Ev.x, K[1], RAdd("1e-7", RMul("100", Ev.tol))), "exact-solution",
       Chk(Ev.newton /\ Ev.exact /\ RIsNum(Ev.tol) /\ RGe(Ev.tol, "1e-9") => Ev.iter <= 2 /\ conv, "one-step-suffices", OK))))))))
  /\ Keep

BfgsRun ==
  /\ Op("bfgs_run")
  /\ Judge(LET S == BfgsK(Q, Bfgs0(Q, Ev.x0), Ev.damped, Ev.back, Ev.k) IN
       Chk(IsVec(Ev.x, Q.n), "shape",
       Chk(S.st = "ok" => Close(Ev.x, S.x, "1e-6"), "bfgs-iterate",
       Chk(S.st = "ok" => Close(<<Ev.crit>>, <<Norm(DLag(Q, S.x, S.lam) \o Con(Q, S.x))>>, "1e-6"), "criterion", OK))))
  /\ Keep
Next == Problem \/ Qp \/ Derivs \/ Update \/ NewtonCall \/ NewtonSteps \/ Stopped \/ BfgsRun
Spec == Init /\ [][Next]_vars
=============================================================================
