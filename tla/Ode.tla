-------------------------------- MODULE Ode --------------------------------
(***************************************************************************)
(* The classical fourth-order Runge-Kutta step, and the exact              *)
(* discretisation of a linear time-invariant system.                       *)
(* A state is a sequence of matrices (vectors are columns).                *)
(***************************************************************************)
EXTENDS Poly

CONSTANT Bits                       \* significant bits kept per step; 0 = exact
ORnd(x) == IF Bits = 0 THEN x ELSE RRnd(x, Bits)
SRnd(x) == IF Bits = 0 THEN x ELSE [i \in 1..Len(x) |-> [r \in 1..Len(x[i]) |-> [c \in 1..Len(x[i][r]) |-> ORnd(x[i][r][c])]]]
SAdd(x, y) == [i \in 1..Len(x) |-> MAdd(x[i], y[i])]
SScale(a, x) == [i \in 1..Len(x) |-> MScale(a, x[i])]

Rk4(f(_, _), dt, x, t) ==
  LET h  == RMul(RHalf, dt)
      k1 == Eager(f(x, t))
      k2 == Eager(f(Eager(SAdd(x, SScale(h, k1))), RAdd(t, h)))
      k3 == Eager(f(Eager(SAdd(x, SScale(h, k2))), RAdd(t, h)))
      k4 == Eager(f(Eager(SAdd(x, SScale(dt, k3))), RAdd(t, dt)))
  IN  Eager(SRnd(Eager(SAdd(x, SScale(RDiv(dt, "6"), SAdd(SAdd(k1, SScale("2", k2)), SAdd(SScale("2", k3), k4)))))))

\* Polynomial fields over z = (x, t, p).
Field(terms, x, t, p) == << [i \in 1..Len(x[1]) |-> << PolyAt(terms[i], [j \in 1..Len(x[1]) |-> x[1][j][1]] \o <<t>> \o p) >>] >>
PolyStep(terms, dt, xv, t, p) == LET f(x, u) == Field(terms, x, u, p) IN
                                 LET y == Rk4(f, dt, << Col(xv) >>, t) IN [i \in 1..Len(xv) |-> y[1][i][1]]
\* x + the integral of a field that depends on t (and p) alone.
IntPoly(ts, it) == [i \in 1..Len(ts) |-> [c |-> RDiv(ts[i].c, ts[i].e[it] + 1), e |-> [ts[i].e EXCEPT ![it] = ts[i].e[it] + 1]]]
ExactStep(terms, dt, xv, t, p) == [i \in 1..Len(xv) |->
  LET z(u) == xv \o <<u>> \o p I == Eager(IntPoly(terms[i], Len(xv) + 1)) IN RAdd(xv[i], RSub(PolyAt(I, z(RAdd(t, dt))), PolyAt(I, z(t))))]
TimeOnly(terms, n) == \A i \in 1..n : \A k \in 1..Len(terms[i]) : \A j \in 1..n : terms[i][k].e[j] = 0
TimeDegree(terms, n, d) == \A i \in 1..n : \A k \in 1..Len(terms[i]) : terms[i][k].e[n + 1] <= d

--------------------------------------------------------------------------
(* dx/dt = F x + G u + L w over one step h, with u held and w white with density Qc:                       *)
(*   A = exp(F h) = sum F^k h^k / k!                                                                       *)
(*   B = int_0^h exp(F s) G ds = sum F^k G h^(k+1) / (k+1)!                                                *)
(*   Q = int_0^h exp(F s) L Qc L' exp(F' s) ds = sum M_k h^(k+1) / (k+1)!,  M_0 = L Qc L', M_k+1 = F M_k + M_k F' *)
MRound(A) == Eager([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> ORnd(A[i][j])]])
RECURSIVE ESum(_, _, _, _)
\* acc + term + next(term) + ..., the k-th term being multiplied by h/k each time; stops at a term below 2^-300 or zero.
ESum(acc, term, k, sys) ==
  IF RLe(MMaxAbs(term), sys.eps) THEN acc
  ELSE LET raw == IF sys.sym THEN MAdd(MMul(sys.F, term), MMul(term, MT(sys.F))) ELSE MMul(sys.F, term)
           nxt == MRound(Eager(MScale(RDiv(sys.h, k + sys.shift), raw)))
       IN  ESum(Eager(MAdd(acc, term)), nxt, k + 1, sys)
Eps == RExp("-200")
MExp(F, h) == ESum(MZero(Len(F), Len(F)), Eager(MId(Len(F))), 1, [F |-> F, h |-> h, sym |-> FALSE, shift |-> 0, eps |-> Eps])
InputGain(F, G, h) == ESum(MZero(Len(F), Len(G[1])), Eager(MScale(h, G)), 1, [F |-> F, h |-> h, sym |-> FALSE, shift |-> 1, eps |-> Eps])
NoiseCov(F, LQL, h) == ESum(MZero(Len(F), Len(F)), Eager(MScale(h, LQL)), 1, [F |-> F, h |-> h, sym |-> TRUE, shift |-> 1, eps |-> Eps])
=============================================================================
