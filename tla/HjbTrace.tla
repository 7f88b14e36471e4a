----------------------------- MODULE HjbTrace -----------------------------
(* Trace specification of the grid HJB solvers. *)
EXTENDS TraceBase
INSTANCE Hjb WITH Bits <- 220

vars == <<s, l>>
Init == s \in 1..Len(Sessions) /\ l = 1

Near(a, b, scale) == RIsNum(a) /\ RFinite(a) /\ RLe(RAbs(RSub(a, b)), RMul("1e-9", RMax(scale, RAbs(b))))
\* The largest reachable value.
Finite(x) == IF Reachable(x) THEN x ELSE R0
Size(M) == RMax("1e-9", MMaxAbs([i \in 1..Len(M) |-> [k \in 1..Len(M[1]) |-> Finite(M[i][k])]]))
Col1(V) == [i \in 1..Len(V) |-> << V[i] >>]
Column(M, k) == [i \in 1..Len(M) |-> M[i][k]]

\* One combination, with the scale its rounding is relative to.
CombOk(kind, A, B, C) ==
  LET sc == RAdd(Size(A), Size(B)) IN
  \A i \in 1..Len(A) : \A k \in 1..Len(B[1]) :
    LET f == SumAt(A, B, i, k) IN
    IF kind = "min" THEN Near(C[i][k], RMinOf(f), sc)
    ELSE \E v \in Refinements(f, RMul("1e-12", sc)) : Near(C[i][k], v, sc)
Comb ==
  /\ Op("combine")
  /\ Judge(Chk(Len(Ev.C) = Len(Ev.A), "batch-size",
           Chk(\A b \in 1..Len(Ev.A) : IsMat(Ev.C[b], Len(Ev.A[b]), Len(Ev.B[b][1])), "shape",
           Chk(\A b \in 1..Len(Ev.A) : CombOk(Ev.kind, Ev.A[b], Ev.B[b], Ev.C[b]), IF Ev.kind = "min" THEN "min-plus" ELSE "parabolic-refinement", OK))))
  /\ Consume

RECURSIVE SuffMin(_, _)
SuffMin(E, i) == IF i = Len(E) THEN << E[i] >> ELSE LET r == SuffMin(E, i + 1) IN << MinPlus(E[i], r[1]) >> \o r
MatNear(C, W, sc) == \A i \in 1..Len(W) : \A k \in 1..Len(W[1]) : Near(C[i][k], W[i][k], sc)
Total(E) == RSum(Eager([i \in 1..Len(E) |-> Size(E[i])]))
ScanOp ==
  /\ Op("scan")
  /\ Judge(Chk(Len(Ev.C) = Len(Ev.E), "length",
           Chk(\A i \in 1..Len(Ev.E) : IsMat(Ev.C[i], Len(Ev.E[i]), Len(Ev.E[1])), "shape",
           IF Ev.kind = "min"
           THEN Chk(LET r == Eager(SuffMin(Ev.E, 1)) sc == Total(Ev.E) IN \A i \in 1..Len(Ev.E) : MatNear(Ev.C[i], r[i], sc), "suffix-min-plus", OK)
           ELSE Chk(LET t == Eager(Orders(Interp, Ev.E)) n == Len(Ev.E) sc == Total(Ev.E) IN
                    \A i \in 1..n : \E W \in t[n - i + 1][i] : MatNear(Ev.C[i], W, sc), "some-order-of-combination", OK))))
  /\ Consume

\* Backward pass over blocks, one at a time: each value function refines over the next one.
Chained(V, vs, sc) == \A k \in 1..(Len(vs) - 1) : \A i \in 1..Len(V) :
  LET f == [j \in 1..Len(V) |-> RAdd(V[i][j], vs[k + 1][j])] IN \E v \in Refinements(f, RMul("1e-12", sc)) : Near(vs[k][i], v, sc)
Blocks ==
  /\ Op("blocks")
  /\ LET n == Ev.blocks V == Ev.V W == Ev.LT sc == RMul(n + 1, RAdd(Size(V), VMaxAbs(W))) IN
     Judge(Chk(Len(Ev.vs) = n + 1, "number-of-value-functions",
           Chk(\A k \in 1..(n + 1) : IsVec(Ev.vs[k], Len(V)), "shape",
           Chk(\A i \in 1..Len(V) : Near(Ev.vs[n + 1][i], W[i], sc), "terminal-value",
           IF Ev.how = "seq" THEN Chk(Chained(V, Ev.vs, sc), "next-value-function", OK)
           ELSE IF Ev.how = "ties"   \* only what every order guarantees
           THEN Chk(\A k \in 1..n : \A i \in 1..Len(V) : RIsNum(Ev.vs[k][i]) /\ RFinite(Ev.vs[k][i]), "finite",
                Chk(LET p == SuffMin([j \in 1..(n + 1) |-> IF j <= n THEN V ELSE Col1(W)], 1) IN
                    \A k \in 1..n : \A i \in 1..Len(V) : RLe(Ev.vs[k][i], RAdd(p[k][i][1], RMul("1e-9", RMax(sc, RAbs(p[k][i][1]))))), "refinement-lowers", OK))
           ELSE Chk(LET t == Eager(Tails(Interp, V, Col1(W), n)) IN
                    \A k \in 1..(n + 1) : \E S \in t[n - k + 2] : MatNear(Col1(Ev.vs[k]), S, sc), "some-order-of-combination", OK)))))
  /\ Consume

Fd ==
  /\ Op("fd")
  /\ LET M == [f |-> Ev.f, L |-> Ev.L, LT |-> Ev.LT]
         n == Ev.blocks
         dt == RDiv(RDiv(Ev.T, n), Ev.steps)
         g == Len(Ev.x) IN
     Judge(Chk(Len(Ev.vs) = n + 1, "number-of-value-functions",
           Chk(\A k \in 1..(n + 1) : IsVec(Ev.vs[k], g), "shape",
           Chk(VClose(Ev.vs[n + 1], Terminal(M, Ev.x), "1e-12", "1e-12"), "terminal-value",
           Chk(\A k \in 1..n : VClose(Ev.vs[k], FdSteps(M, Ev.scheme, Ev.vs[k + 1], Ev.x, Ev.u, dt, Ev.steps), "1e-10", "1e-9"),
               IF Ev.scheme = "upwind" THEN "upwind-steps" ELSE "central-steps", OK)))))
  /\ Consume

Shot ==
  /\ Op("shoot")
  /\ LET M == [f |-> Ev.f, L |-> Ev.L] nb == Len(Ev.x0) IN
     Judge(Chk(IsVec(Ev.cost, nb) /\ IsVec(Ev.miss, nb), "shape",
           Chk(\A b \in 1..nb : LET r == ShootTheta(M, Ev.how, Ev.T, Ev.x0[b], Ev.xf[b], Ev.theta[b]) IN
                 VClose(<< Ev.cost[b], Ev.miss[b] >>, r, "1e-11", "1e-9"), "cost-and-end-point", OK)))
  /\ Consume
Table ==
  /\ Op("table")
  /\ LET M == [f |-> Ev.f, L |-> Ev.L] n == Len(Ev.x0) m == Len(Ev.xf) IN
     Judge(Chk(IsMat(Ev.V, n, m), "shape",
           Chk(\A i \in 1..n : \A k \in 1..m : LET b == BestShot(M, Ev.how, Ev.T, Ev.steps, Ev.x0[i], Ev.xf[k]) IN
                 b # <<>> => VClose(<< Ev.V[i][k] >>, b, "1e-8", "1e-7"), "least-cost-between-grid-points", OK)))
  /\ Consume

Next == Comb \/ ScanOp \/ Blocks \/ Fd \/ Shot \/ Table
Spec == Init /\ [][Next]_vars
=============================================================================
