--------------------------- MODULE PararealTrace ---------------------------
(* Trace specification of the Parareal passes (NumPy and TensorFlow). *)
EXTENDS TraceBase
INSTANCE PararealCLQT WITH Bits <- 120

vars == <<s, l>>
Init == s \in 1..Len(Sessions) /\ l = 1

P == Sessions[s].ev[1].P
T == Sessions[s].ev[1].T
N == P.n
Problem == Op("problem") /\ Judge(OK) /\ Consume

C(a, b) == MClose(a, b, "1e-10", "1e-9")
V(a, b) == C(Col(a), b)
Cols1(vs) == Eager([i \in 1..Len(vs) |-> Col(vs[i])])
Steps == Ev.blocks * Ev.steps
ShapesV == /\ Len(Ev.K) = Steps /\ Len(Ev.d) = Steps /\ Len(Ev.S) = Steps + 1 /\ Len(Ev.v) = Steps + 1
           /\ \A i \in 1..Steps : IsMat(Ev.K[i], P.m, N) /\ IsVec(Ev.d[i], P.m)
           /\ \A i \in 1..(Steps + 1) : IsMat(Ev.S[i], N, N) /\ IsVec(Ev.v[i], N)
ShapesX == /\ Len(Ev.us) = Steps /\ Len(Ev.xs) = Steps + 1
           /\ \A i \in 1..Steps : IsVec(Ev.us[i], P.m)
           /\ \A i \in 1..(Steps + 1) : IsVec(Ev.xs[i], N)
ShapesF == /\ Len(Ev.A) = Steps + 1 /\ Len(Ev.b) = Steps + 1 /\ Len(Ev.C) = Steps + 1
           /\ \A i \in 1..(Steps + 1) : IsMat(Ev.A[i], N, N) /\ IsVec(Ev.b[i], N) /\ IsMat(Ev.C[i], N, N)

ValuesOk(vals) ==
  LET Same(i) == C(Ev.S[i], vals[i][1]) /\ V(Ev.v[i], vals[i][2]) IN
  Chk(Same(Steps + 1), "end",
  Chk(\A i \in 1..Steps : Same(i), "value", OK))
StatesOk(f) ==
  Chk(\A i \in 1..(Steps + 1) : V(Ev.xs[i], f.xs[i]), "state",
  Chk(\A i \in 1..Steps : V(Ev.us[i], f.us[i]), "control", OK))

Backward1 ==
  /\ Op("backward")
  /\ Judge(Chk(ShapesV, "shape",
     LET b == ParaBackward(P, T, Ev.blocks, Ev.steps, Ev.niter)
         bad == ValuesOk(b.vals)
     IN  Chk(bad = "", bad,
         Chk(\A i \in 1..Steps : C(Ev.K[i], b.K[i]), "gain",
         Chk(\A i \in 1..Steps : V(Ev.d[i], b.d[i]), "offset",
         \* enough iterations: the sequential solution on the fine grid
         LET q == Backward(P, P.ST, P.vT, R0, DtF(T, Ev.blocks, Ev.steps), Steps) IN
         Chk(Ev.niter < Ev.blocks \/ (\A i \in 1..(Steps + 1) : C(Ev.S[i], q[i][1]) /\ V(Ev.v[i], q[i][2])), "converged", OK))))))
  /\ Consume

Forward1 ==
  /\ Op("forward")
  /\ Judge(Chk(ShapesX, "shape",
     LET x0 == Col(Ev.x0) d == Cols1(Ev.d)
         bad == StatesOk(ParaForward(P, T, x0, Ev.K, d, Ev.blocks, Ev.steps, Ev.niter, Ev.zoh))
         q == Roll(P, x0, Ev.K, d, R0, DtF(T, Ev.blocks, Ev.steps), Ev.zoh, Steps)
     IN  Chk(bad = "", bad,
         Chk(Ev.niter < Ev.blocks \/ (\A i \in 1..(Steps + 1) : V(Ev.xs[i], q.xs[i])), "converged", OK))))
  /\ Consume

Values ==
  /\ Op("values")
  /\ Judge(Chk(ShapesF, "shape",
     LET x0 == Col(Ev.x0)
         Same(f) == \A i \in 1..(Steps + 1) : C(Ev.A[i], f[i][1]) /\ V(Ev.b[i], f[i][2]) /\ C(Ev.C[i], f[i][3])
         f == ParaValues(P, T, x0, Ev.blocks, Ev.steps, Ev.niter)
         q == ForwTo(P, << MZero(N, N), x0, MZero(N, N) >>, R0, DtF(T, Ev.blocks, Ev.steps), Steps)
     IN  Chk(Same(f), "forward-value",
         Chk(Ev.niter < Ev.blocks \/ Same(q), "converged", OK))))
  /\ Consume

\* The whole solution in one call: how = "roll" (states under the laws) or "meet" (forward and backward values).
Solve1 ==
  /\ Op("solve")
  /\ Judge(Chk(ShapesX, "shape",
     LET x0 == Col(Ev.x0)
         b == ParaBackward(P, T, Ev.blocks, Ev.steps, Ev.niter)
     IN  StatesOk(IF Ev.how = "roll" THEN ParaForward(P, T, x0, b.K, b.d, Ev.blocks, Ev.steps, Ev.niter, FALSE)
                  ELSE MeetAll(P, b.K, b.d, b.vals, ParaValues(P, T, x0, Ev.blocks, Ev.steps, Ev.niter)))))
  /\ Consume

Next == Problem \/ Backward1 \/ Forward1 \/ Values \/ Solve1
Spec == Init /\ [][Next]_vars
=============================================================================
