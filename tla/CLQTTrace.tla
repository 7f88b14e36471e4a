----------------------------- MODULE CLQTTrace -----------------------------
(* Trace specification of the continuous-time LQ solvers (NumPy and TensorFlow). *)
EXTENDS TraceBase
INSTANCE CLQT WITH Bits <- 120

vars == <<s, l>>
Init == s \in 1..Len(Sessions) /\ l = 1

\* The problem of a session is its first event.
P == Sessions[s].ev[1].P
N == P.n
Problem == Op("problem") /\ Judge(OK) /\ Consume

Tol == "1e-9"
C(a, b) == MClose(a, b, "1e-10", Tol)
V(a, b) == C(Col(a), b)
Cols1(vs) == Eager([i \in 1..Len(vs) |-> Col(vs[i])])
Steps == Ev.blocks * Ev.steps
ShapesV == /\ Len(Ev.K) = Steps /\ Len(Ev.d) = Steps /\ Len(Ev.S) = Steps + 1 /\ Len(Ev.v) = Steps + 1
           /\ \A i \in 1..Steps : IsMat(Ev.K[i], P.m, N) /\ IsVec(Ev.d[i], P.m)
           /\ \A i \in 1..(Steps + 1) : IsMat(Ev.S[i], N, N) /\ IsVec(Ev.v[i], N)
ShapesX == /\ Len(Ev.us) = Steps /\ Len(Ev.xs) = Steps + 1
           /\ \A i \in 1..Steps : IsVec(Ev.us[i], P.m)
           /\ \A i \in 1..(Steps + 1) : IsVec(Ev.xs[i], N)

\* Backward pass; how = "seq" (terminal S, v given), "exact" or "par".
Backward1 ==
  /\ Op("backward")
  /\ Judge(Chk(ShapesV, "shape",
     LET Q == [P EXCEPT !.ST = Ev.S1, !.vT = Col(Ev.v1)]
         b == IF Ev.how = "exact" THEN ExactBackward(Q, Q.ST, Ev.dt, Steps)
              ELSE IF Ev.how = "par" THEN ParBackward(Q, Ev.blocks, Ev.steps, Ev.t0, Ev.dt, Ev.fw)
              ELSE IF Ev.how = "par-exact" THEN   \* blocks by integration, inside blocks exactly
                   LET p == ParBackward(Q, Ev.blocks, Ev.steps, Ev.t0, Ev.dt, Ev.fw)
                       E == MExp(Hamil(Q), RNeg(Ev.dt))
                       es == Suffixes(Append(Blocks(Q, Ev.t0, Ev.dt, Ev.blocks, Ev.steps, Ev.fw), EndElem(Q)), 1)
                       part == Eager([k \in 1..Ev.blocks |-> ExactTo(Q, E, es[k + 1].J, Ev.steps, 0)])
                       at(i) == << part[1 + (i - 1) \div Ev.steps][1 + ((i - 1) % Ev.steps)], MZero(N, 1) >>
                   IN  [vals |-> [i \in 1..(Steps + 1) |-> IF i = 1 THEN p.vals[1] ELSE << part[1 + (i - 2) \div Ev.steps][2 + ((i - 2) % Ev.steps)], MZero(N, 1) >>],
                        lawof |-> [i \in 1..Steps |-> at(i)]]
              ELSE SeqBackward(Q, Q.ST, Q.vT, Steps, Ev.t0, Ev.dt)
         t(i) == Grid(Ev.t0, Ev.dt, i - 1)
     IN  Chk(\A i \in 1..(Steps + 1) : C(Ev.S[i], b.vals[i][1]), "value-matrix",
         Chk(\A i \in 1..(Steps + 1) : V(Ev.v[i], b.vals[i][2]), "value-vector",
         Chk(\A i \in 1..Steps : C(Ev.K[i], LawK(Q, b.lawof[i], t(i))), "gain",
         Chk(\A i \in 1..Steps : V(Ev.d[i], LawD(Q, b.lawof[i], t(i))), "offset", OK))))))
  /\ Consume

\* Forward pass under the laws that the caller supplied.
Forward1 ==
  /\ Op("forward")
  /\ Judge(Chk(ShapesX, "shape",
     LET x0 == Col(Ev.x0) d == Cols1(Ev.d)
         f == IF Ev.how = "exact" THEN ExactRoll(P, x0, Ev.K, Ev.dt, Ev.zoh, Steps)
              ELSE IF Ev.how = "par" THEN ParForward(P, x0, Ev.K, d, Ev.blocks, Ev.steps, Ev.t0, Ev.dt, Ev.fw, Ev.zoh)
              ELSE Roll(P, x0, Ev.K, d, Ev.t0, Ev.dt, Ev.zoh, Steps)
     IN  Chk(\A i \in 1..(Steps + 1) : V(Ev.xs[i], f.xs[i]), "state",
         Chk(\A i \in 1..Steps : V(Ev.us[i], f.us[i]), "control", OK))))
  /\ Consume

\* Forward values of the sequential forward-backward pass.
Values ==
  /\ Op("values")
  /\ Judge(Chk(Len(Ev.A) = Steps + 1 /\ Len(Ev.b) = Steps + 1 /\ Len(Ev.C) = Steps + 1, "count",
           Chk(\A i \in 1..(Steps + 1) : IsMat(Ev.A[i], N, N) /\ IsVec(Ev.b[i], N) /\ IsMat(Ev.C[i], N, N), "shape",
     LET f == ForwTo(P, << Ev.A0, Col(Ev.b0), Ev.C0 >>, Ev.t0, Ev.dt, Steps) IN
           Chk(\A i \in 1..(Steps + 1) : C(Ev.A[i], f[i][1]) /\ V(Ev.b[i], f[i][2]) /\ C(Ev.C[i], f[i][3]), "forward-value", OK))))
  /\ Consume

\* States and controls out of given forward and backward values.
Vals2 == Eager([i \in 1..Len(Ev.S) |-> << Ev.S[i], Col(Ev.v[i]) >>])
Meet1 ==
  /\ Op("meet")
  /\ Judge(Chk(ShapesX, "shape",
     LET f == IF Ev.how = "par" THEN ParMeet(P, Col(Ev.x0), Ev.K, Cols1(Ev.d), Vals2, Ev.blocks, Ev.steps, Ev.t0, Ev.dt, Ev.fw)
              ELSE MeetAll(P, Ev.K, Cols1(Ev.d), Vals2, [i \in 1..(Steps + 1) |-> << Ev.A[i], Col(Ev.b[i]), Ev.C[i] >>])
     IN  Chk(\A i \in 1..(Steps + 1) : V(Ev.xs[i], f.xs[i]), "state",
         Chk(\A i \in 1..Steps : V(Ev.us[i], f.us[i]), "control", OK))))
  /\ Consume

\* Block elements before the scan.
Elems ==
  /\ Op("elements")
  /\ Judge(Chk(Len(Ev.elems) = Ev.blocks + 1, "count",
     LET bl == Blocks(P, Ev.t0, Ev.dt, Ev.blocks, Ev.steps, Ev.fw)
         es == IF Ev.side = "end" THEN Append(bl, EndElem(P)) ELSE << StartElem(P, Ev.x0) >> \o bl
     IN  Chk(\A k \in 1..(Ev.blocks + 1) : C(Ev.elems[k].A, es[k].A) /\ V(Ev.elems[k].b, Col(es[k].b)) /\ C(Ev.elems[k].C, es[k].C)
                /\ V(Ev.elems[k].eta, Col(es[k].eta)) /\ C(Ev.elems[k].J, es[k].J), "element", OK)))
  /\ Consume

Next == Problem \/ Backward1 \/ Forward1 \/ Values \/ Meet1 \/ Elems
Spec == Init /\ [][Next]_vars
=============================================================================
