----------------------------- MODULE OdeTrace -----------------------------
(* Trace specification of the Runge-Kutta integrators and the LTI discretisation. *)
EXTENDS TraceBase
INSTANCE Ode WITH Bits <- 500

vars == <<s, l>>
Init == s \in 1..Len(Sessions) /\ l = 1
Close(a, b, rtol) == VClose(a, b, rtol, rtol)
\* Rounding in floating point is relative to the largest intermediate quantity: the increments and the state.
Step ==
  /\ Op("rk4")
  /\ Judge(Chk(Len(Ev.y) = Len(Ev.x), "batch-size",
           Chk(\A b \in 1..Len(Ev.x) : IsVec(Ev.y[b], Len(Ev.x[b])), "shape",
           Chk(\A b \in 1..Len(Ev.x) : Close(Ev.y[b], PolyStep(Ev.terms, Ev.dt, Ev.x[b], Ev.t, Ev.p), Ev.rtol), "runge-kutta-step",
           Chk(\A b \in 1..Len(Ev.x) : (TimeOnly(Ev.terms, Len(Ev.x[b])) /\ TimeDegree(Ev.terms, Len(Ev.x[b]), 3)) =>
                 Close(Ev.y[b], ExactStep(Ev.terms, Ev.dt, Ev.x[b], Ev.t, Ev.p), Ev.rtol), "cubic-in-time-exact", OK)))))
  /\ Consume
Disc ==
  /\ Op("disc")
  /\ Judge(LET n == Len(Ev.F) LQL == MMul3(Ev.L, Ev.Qc, MT(Ev.L)) A == MExp(Ev.F, Ev.dt) Q == NoiseCov(Ev.F, LQL, Ev.dt) IN
           Chk(IsMat(Ev.A, n, n) /\ IsMat(Ev.Q, n, n), "shape",
           Chk(MClose(Ev.A, A, "1e-12", "1e-9"), "transition-matrix",
           Chk(MClose(Ev.Q, Q, "1e-14", RMul("1e-9", RMax(R1, RMul(MMaxAbs(A), MMaxAbs(MExp(Ev.F, RNeg(Ev.dt))))))), "noise-covariance",
           Chk(Has(Ev, "B") => IsMat(Ev.B, n, Len(Ev.G[1])), "input-shape",
           Chk(Has(Ev, "B") => MClose(Ev.B, InputGain(Ev.F, Ev.G, Ev.dt), "1e-14", "1e-9"), "input-matrix", OK))))))
  /\ Consume
Next == Step \/ Disc
Spec == Init /\ [][Next]_vars
=============================================================================
