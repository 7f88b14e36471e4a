-------------------------------- MODULE SQP --------------------------------
(***************************************************************************)
(* Equality-constrained sequential quadratic programming.                  *)
(*   minimise f(x)  subject to  c(x) = 0                                   *)
(* A problem Q is [n, m, f, c]: numbers of variables and constraints, the  *)
(* objective and the constraints as polynomials.  Lagrangian               *)
(*   L(x, lam) = f(x) - lam' c(x).                                         *)
(***************************************************************************)
EXTENDS Poly

\* Precision kept along iterations (significant bits); 0 = exact.
CONSTANT Bits
Rnd(v) == IF Bits = 0 THEN v ELSE [i \in 1..Len(v) |-> RRnd(v[i], Bits)]

\* ---- QP:  min 1/2 x'Gx + c'x,  A x = b.  The KKT point <<x, lam>>.
Kkt(G, c, A, b) == LET n == Len(c) m == Len(b)
                       K == Eager(VCat(HCat(G, MNeg(MT(A))), HCat(A, MZero(m, m))))
                       z == MSolveV(K, VNeg(c) \o b)
                   IN  IF z = <<>> THEN z ELSE << SubSeq(z, 1, n), SubSeq(z, n + 1, n + m) >>
QCost(G, c, x) == RAdd(RMul(RHalf, MQuad(x, G, x)), VDot(c, x))

\* ---- values and derivatives
Obj(Q, x)  == PolyAt(Q.f, x)
DObj(Q, x) == PGrad(Q.f, x)
Con(Q, x)  == Eager([i \in 1..Q.m |-> PolyAt(Q.c[i], x)])
DCon(Q, x) == Eager([i \in 1..Q.m |-> PGrad(Q.c[i], x)])
Lag(Q, x, lam)  == RSub(Obj(Q, x), VDot(lam, Con(Q, x)))
DLag(Q, x, lam) == VSub(DObj(Q, x), MVec(MT(DCon(Q, x)), lam))
RECURSIVE HSum(_, _, _, _)
HSum(Q, x, lam, k) == IF k = 0 THEN PHess(Q.f, x) ELSE MSub(HSum(Q, x, lam, k - 1), MScale(lam[k], PHess(Q.c[k], x)))
HLag(Q, x, lam) == Eager(HSum(Q, x, lam, Q.m))
Norm(v) == RSqrt(VDot(v, v))

\* ---- local SQP: one full Newton step from <<x, lam>>
Newton(Q, x, lam) == LET k == Kkt(HLag(Q, x, lam), DObj(Q, x), DCon(Q, x), VNeg(Con(Q, x)))
                     IN  IF k = <<>> THEN <<>> ELSE << Rnd(VAdd(x, k[1])), Rnd(k[2]) >>
RECURSIVE NewtonK(_, _, _, _)
NewtonK(Q, x, lam, k) == IF k = 0 THEN <<x, lam>>
                         ELSE LET p == Newton(Q, x, lam) IN IF p = <<>> THEN p ELSE NewtonK(Q, p[1], p[2], k - 1)
\* Distance of the gradient from the row space of the constraint Jacobian (least-squares multipliers).
KktResidual(Q, x) == LET J == DCon(Q, x) g == DObj(Q, x) lam == MSolveV(MMul(J, MT(J)), MVec(J, g))
                     IN  IF lam = <<>> THEN R0 ELSE Norm(VSub(g, MVec(MT(J), lam)))

\* ---- quasi-Newton updates
Outer(v, w) == [i \in 1..Len(v) |-> [j \in 1..Len(w) |-> RMul(v[i], w[j])]]
Rank2(B, s, y) == LET Bs == Eager(MVec(B, s)) IN
                  Eager(MSub(MAdd(B, MScale(RDiv(R1, VDot(s, y)), Outer(y, y))), MScale(RDiv(R1, VDot(s, Bs)), Outer(Bs, Bs))))
Basic(B, s, y) == IF RGt(VDot(s, y), R0) THEN Rank2(B, s, y) ELSE B
Theta(B, s, y) == LET sBs == MQuad(s, B, s) sy == VDot(s, y) IN
                  IF RGe(sy, RMul("1/5", sBs)) THEN R1 ELSE RDiv(RMul("4/5", sBs), RSub(sBs, sy))
DampedY(B, s, y) == LET t == Theta(B, s, y) IN Eager(VAdd(VScale(t, y), VScale(RSub(R1, t), MVec(B, s))))
Damped(B, s, y) == Rank2(B, s, DampedY(B, s, y))

Symmetric(B, tol) == LET T == MT(B) IN \A i \in 1..Len(B) : \A j \in 1..Len(B) : RLe(RAbs(RSub(B[i][j], T[i][j])), tol)
\* Positive definite, by elimination.
RECURSIVE PosDef(_)
PosDef(A) == IF Len(A) = 0 THEN TRUE ELSE
             /\ RGt(A[1][1], R0)
             /\ PosDef(Eager([i \in 1..(Len(A) - 1) |-> [j \in 1..(Len(A) - 1) |->
                   RSub(A[i + 1][j + 1], RDiv(RMul(A[i + 1][1], A[1][j + 1]), A[1][1]))]]))

\* ---- BFGS with backtracking on the l1 merit function (mu = 1)
RECURSIVE SumAbs(_)
SumAbs(v) == IF v = <<>> THEN R0 ELSE RAdd(RAbs(v[1]), SumAbs(Tail(v)))
Merit(Q, x) == RAdd(Obj(Q, x), SumAbs(Con(Q, x)))
\* A state is [x, lam, B, st]; st = "ok", "singular", or "close" (a comparison too close to call in floating point).
RECURSIVE Halvings(_, _, _, _, _, _)
Halvings(Q, x, p, m0, k, max) ==
  LET m == Merit(Q, VAdd(x, VScale(RPow(RHalf, k), p))) gap == RMul("1e-9", RAdd(R1, RAbs(m0))) IN
  IF RLe(RAbs(RSub(m, m0)), gap) THEN -1
  ELSE IF RLt(m, m0) THEN k
  ELSE IF k + 1 = max THEN -1        \* the documented escape ("leap of faith"): not followed further
  ELSE Halvings(Q, x, p, m0, k + 1, max)
BfgsStep(Q, S, damped, max) ==
  LET k == Kkt(S.B, DObj(Q, S.x), DCon(Q, S.x), VNeg(Con(Q, S.x))) IN
  IF k = <<>> THEN [S EXCEPT !.st = "singular"]
  ELSE LET h == Halvings(Q, S.x, k[1], Merit(Q, S.x), 0, max) IN
       IF h < 0 THEN [S EXCEPT !.st = "close"]
       ELSE LET a == RPow(RHalf, h)
                step == Eager(Rnd(VScale(a, k[1])))
                x2 == Eager(VAdd(S.x, step))
                lam2 == Eager(Rnd(VAdd(S.lam, VScale(a, VSub(k[2], S.lam)))))
                y == Eager(VSub(DLag(Q, x2, lam2), DLag(Q, S.x, lam2)))
                sy == VDot(step, y) sBs == MQuad(step, S.B, step)
                near(u, v) == RLe(RAbs(RSub(u, v)), RMul("1e-9", RAdd(RAbs(u), RAbs(v))))
            IN  IF (~damped /\ RLe(RAbs(sy), RMul("1e-9", sBs))) \/ (damped /\ near(sy, RMul("1/5", sBs)))
                THEN [S EXCEPT !.st = "close"]
                ELSE [x |-> x2, lam |-> lam2, st |-> "ok",
                      B |-> Eager(LET N == IF damped THEN Damped(S.B, step, y) ELSE Basic(S.B, step, y)
                                  IN  [i \in 1..Len(N) |-> Rnd(N[i])])]
RECURSIVE BfgsK(_, _, _, _, _)
BfgsK(Q, S, damped, max, k) == IF k = 0 \/ S.st # "ok" THEN S ELSE BfgsK(Q, BfgsStep(Q, S, damped, max), damped, max, k - 1)
Bfgs0(Q, x0) == [x |-> x0, lam |-> VZero(Q.m), B |-> Eager(MId(Q.n)), st |-> "ok"]
=============================================================================
