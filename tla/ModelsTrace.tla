---------------------------- MODULE ModelsTrace ----------------------------
(* Trace specification of the shipped benchmark models. *)
EXTENDS TraceBase
INSTANCE Models WITH Bits <- 500

vars == <<s, l>>
Init == s \in 1..Len(Sessions) /\ l = 1
VT(a, b, t) == LET e == Eager(b) IN Len(a) = Len(e) /\ VClose(a, e, t, t)
MT2(a, b, t) == LET e == Eager(b) IN Len(a) = Len(e) /\ (\A i \in 1..Len(e) : Len(a[i]) = Len(e[i])) /\ MClose(a, e, t, t)
V(a, b) == VT(a, b, "1e-12")
M(a, b) == MT2(a, b, "1e-12")
Each(as, bs0, C(_, _)) == LET bs == Eager(bs0) IN Len(as) = Len(bs) /\ \A k \in 1..Len(bs) : C(as[k], bs[k])
Rows1(A) == \A i \in 1..Len(A) : Stochastic(A[i])

Text ==
  /\ Op("text")
  /\ Judge(LET K == Ev.K n == Ev.order t == Ev.train IN
           Chk(Rows1(Ev.Po) /\ Rows1(Ev.Pi) /\ Stochastic(Ev.prior) /\ Rows1(Ev.PoN) /\ Rows1(Ev.PiN) /\ Stochastic(Ev.priorN), "stochastic",
           Chk(M(Ev.Po, Output(K, Ev.errp)), "output-matrix", Chk(M(Ev.Pi, FirstOrder(K, t)), "transition-counts", Chk(V(Ev.prior, Prior(K, 1, t)), "prior-counts",
           Chk(M(Ev.PoN, OutputN(K, Ev.errp, n)), "output-matrix-n", Chk(M(Ev.PiN, Trans(K, n, t)), "transition-counts-n", Chk(V(Ev.priorN, Prior(K, n, t)), "prior-counts-n", OK))))))))
  /\ Consume
Codec ==
  /\ Op("codec")
  /\ Judge(Chk(Ev.ys = Ev.text, "encode", Chk(Ev.back = Decode(Ev.K, Ev.zs), "decode", Chk(Ev.round = Ev.text, "round-trip", OK))))
  /\ Consume
Noisy ==
  /\ Op("noisy")
  /\ Judge(LET n == Len(Ev.text) IN
           Chk(Len(Ev.out) = n /\ \A i \in 1..n : Ev.out[i] \in 0..(Ev.K - 1), "alphabet",
           Chk(Plausible(Count(Ev.out, LAMBDA i : Ev.out[i] # Ev.text[i]), n, RMul(Ev.errp, RDiv(Ev.K - 1, Ev.K))), "error-rate", OK)))
  /\ Consume
Channel ==
  /\ Op("channel")
  /\ Judge(LET n == Len(Ev.x)
               from(i) == Count(Ev.x, LAMBDA k : k < n /\ Ev.x[k] = i)
               fromto(i, j) == Count(Ev.x, LAMBDA k : k < n /\ Ev.x[k] = i /\ Ev.x[k + 1] = j)
               emits(i, y) == Count(Ev.x, LAMBDA k : Ev.x[k] = i /\ Ev.y[k] = y) IN
           Chk(Rows1(Ev.Pi) /\ Rows1(Ev.Po) /\ Stochastic(Ev.prior), "stochastic",
           Chk(M(Ev.Pi, ChannelPi), "transitions", Chk(M(Ev.Po, ChannelPo), "observations", Chk(V(Ev.prior, [ i \in 1..4 |-> "0.25" ]), "prior",
           Chk(n = Ev.T /\ Len(Ev.y) = n /\ \A k \in 1..n : Ev.x[k] \in 0..3 /\ Ev.y[k] \in 0..1, "sample",
           Chk(\A i, j \in 0..3 : Plausible(fromto(i, j), from(i), ChannelPi[i + 1][j + 1]), "sample-transitions",
           Chk(\A i \in 0..3, y \in 0..1 : Plausible(emits(i, y), Count(Ev.x, LAMBDA k : Ev.x[k] = i), ChannelPo[i + 1][y + 1]), "sample-observations",
           Chk(Ev.bits = [ k \in 1..n |-> Bit(Ev.x[k]) ], "bits", OK)))))))))
  /\ Consume
Game ==
  /\ Op("game")
  /\ Judge(LET n == Ev.n T == Ev.T IN
           Chk(Len(Ev.track) = n /\ \A i \in 1..n : IsVec(Ev.track[i], T), "scene-size",
           Chk(Ev.x0 = n \div 2, "start", Chk(Runners(n, Ev.track, T) # {}, "scene",
           Chk(Each(Ev.f, [ k \in 1..T |-> GameF(n) ], LAMBDA a, b : a = b), "moves",
           Chk(Each(Ev.L, [ k \in 1..T |-> GameL(Ev.track, k) ], M), "costs", Chk(V(Ev.LT, VZero(n)), "terminal-cost", OK)))))))
  /\ Consume
Walk ==
  /\ Op("walk")
  /\ Judge(Chk(Len(Ev.xy) = 2 /\ IsVec(Ev.xy[1], Ev.N) /\ IsVec(Ev.xy[2], Ev.N), "size", Chk(WalkOk(Ev.xy[1], Ev.xy[2]), "walk", OK)))
  /\ Consume
LQ(P, dyn, Q) ==
  Chk(Q.T = P.T /\ Len(Q.X) = P.T /\ Len(Q.r) = P.T, "stages",
  Chk(dyn => Each(Q.F, P.F, M) /\ Each(Q.L, P.L, M), "dynamics", Chk(Each(Q.c, P.c, V), "offset", Chk(Each(Q.H, P.H, M), "output", Chk(Each(Q.r, P.r, V), "references",
  Chk(Each(Q.X, P.X, M), "state-weights", Chk(Each(Q.U, P.U, M), "control-weights", Chk(M(Q.HT, P.HT) /\ M(Q.XT, P.XT) /\ V(Q.rT, P.rT), "terminal", Chk(V(Q.x0, P.x0), "initial-state", OK)))))))))
WalkLqt == Op("walk_lqt") /\ Judge(LQ(Eager(WalkProblem(Ev.xy, Ev.steps)), TRUE, Ev)) /\ Consume
CurveLqt ==
  /\ Op("curve")
  /\ Judge(LET P == Eager(CurveProblem(Ev.t)) E == CurveEnd w == Ev.tol IN
           Chk(MT2(Ev.F, P.F, w) /\ MT2(Ev.L, P.L, w) /\ VT(Ev.c, P.c, w), "dynamics", Chk(MT2(Ev.H, P.H, w) /\ MT2(Ev.X, P.X, w) /\ MT2(Ev.U, P.U, w), "weights", Chk(VT(Ev.r, P.r, w), "curve",
           Chk(MT2(Ev.HT, E.HT, w) /\ MT2(Ev.XT, E.XT, w) /\ VT(Ev.rT, E.rT, w) /\ VT(Ev.x0, E.x0, w) /\ RClose(Ev.T, E.T, w, w), "ends", OK)))))
  /\ Consume
Car ==
  /\ Op("car")
  /\ Judge(LET n == Len(Ev.x) IN
           Chk(Each(Ev.f, [ k \in 1..n |-> CarF(Ev.dt, Ev.x[k], Ev.u[k]) ], V), "dynamics", Chk(Each(Ev.Fx, [ k \in 1..n |-> CarFx(Ev.dt, Ev.x[k], Ev.u[k]) ], M), "state-jacobian",
           Chk(Each(Ev.Fu, [ k \in 1..n |-> CarFu(Ev.dt, Ev.x[k], Ev.u[k]) ], M), "control-jacobian", OK))))
  /\ Consume
CarRound ==
  /\ Op("round")
  /\ Judge(Chk(Len(Ev.dense) = 3 /\ \A i \in 1..3 : IsVec(Ev.dense[i], Ev.N), "size", Chk(RoundOk(Ev.N, Ev.dense), "curve",
           Chk(Len(Ev.xyt) = 3 /\ \A i \in 1..3 : Ev.xyt[i] = Every(Ev.dense[i], Ev.steps), "sampling", OK))))
  /\ Consume
CarLqt == Op("car_lqt") /\ Judge(LQ(Eager(CarProblem(Ev.xyt, Ev.steps)), FALSE, Ev)) /\ Consume
CarGuess ==
  /\ Op("guess")
  /\ Judge(LET T == Len(Ev.r) IN
           Chk(Len(Ev.us) = T /\ Len(Ev.xs) = T + 1 /\ V(Ev.xs[1], Ev.x0) /\ \A k \in 1..T : V(Ev.us[k], VZero(2)), "sizes",
           Chk(IF Ev.zero THEN \A k \in 1..T : V(Ev.xs[k + 1], VZero(4)) ELSE Each(SubSeq(Ev.xs, 2, T + 1), Guess(Ev.r, Ev.dt, T).xs, V), "guess", OK)))
  /\ Consume
Chain ==
  /\ Op("chain")
  /\ Judge(LET N == Ev.N T == Ev.T I2 == MId(2 * N) IN
           Chk(Steps(T, Ev.Tf, Ev.dt), "stages",
           Chk(\A k \in 1..Len(Ev.F) : MT2(Ev.F[k], O!MExp(ChainF(N), Ev.dt), "1e-10") /\ MT2(Ev.L[k], O!InputGain(ChainF(N), ChainL(N), Ev.dt), "1e-10"), "dynamics",
           Chk(\A k \in 1..Len(Ev.X) : M(Ev.X[k], I2) /\ M(Ev.U[k], Diag(<<"0.1", "0.1">>)), "weights", Chk(M(Ev.XT, I2) /\ V(Ev.rT, VZero(2 * N)) /\ M(Ev.HT, I2), "terminal",
           Chk(V(Ev.x0, ChainX0(N)), "initial-state", OK))))))
  /\ Consume
Grid ==
  /\ Op("grid")
  /\ Judge(LET n == Len(Ev.x) w == Ev.tol IN
           Chk(Uniform(Ev.xg, GridX(Ev.kind), Ev.nx, w) /\ Uniform(Ev.ug, GridU(Ev.kind), Ev.nu, w), "grids", Chk(RClose(Ev.T, R1, w, w), "horizon",
           Chk(VT(Ev.f, [ k \in 1..n |-> GridF(Ev.kind, Ev.x[k], Ev.u[k]) ], w), "dynamics", Chk(VT(Ev.L, [ k \in 1..n |-> GridL(Ev.kind, Ev.x[k], Ev.u[k]) ], w), "running-cost",
           Chk(VT(Ev.LT, [ k \in 1..n |-> GridLT(Ev.kind, Ev.x[k]) ], w), "terminal-cost", OK))))))
  /\ Consume
Reachable ==
  /\ Op("reach")
  /\ Judge(LET n == Len(Ev.x) IN
           Chk(Len(Ev.V) = n /\ \A i \in 1..n : Len(Ev.V[i]) = n, "shape",
           Chk(\A i, j \in 1..n : REq(Ev.V[i][j], R0) \/ REq(Ev.V[i][j], Ev.inf), "two-valued",
           Chk(\A i, j \in 1..n : Reach(Ev.x[i], Ev.x[j], Ev.h, REq(Ev.V[i][j], R0)), "reachable", OK))))
  /\ Consume
Sizes ==      \* generators of problems of growing size: as many stages as asked for
  /\ Op("sizes")
  /\ Judge(Chk(Ev.got = Ev.want, "stages", OK))
  /\ Consume

Next == Text \/ Codec \/ Noisy \/ Channel \/ Game \/ Walk \/ WalkLqt \/ CurveLqt \/ Car \/ CarRound \/ CarLqt \/ CarGuess \/ Chain \/ Grid \/ Reachable \/ Sizes
Spec == Init /\ [][Next]_vars
=============================================================================
