-------------------------------- MODULE Hjb --------------------------------
(***************************************************************************)
(* One-dimensional optimal control on a grid.                              *)
(*   dx/dt = f(x, u),  cost = LT(x(T)) + integral of L(x, u)               *)
(*                                                                         *)
(* A conditional value function is a matrix: V[i][k] is the least cost of  *)
(* going from grid point i to grid point k.  Two of them over adjacent     *)
(* intervals combine through the point j in the middle: the min-plus       *)
(* product, or its refinement by the parabola through the grid minimum and *)
(* its two neighbours.  Value functions are single columns.                *)
(***************************************************************************)
EXTENDS Ode
LOCAL INSTANCE FiniteSets

Rd(x) == ORnd(x)
SumAt(A, B, i, k) == Eager([j \in 1..Len(B) |-> RAdd(A[i][j], B[j][k])])
MinPlus(A, B) == Eager([i \in 1..Len(A) |-> [k \in 1..Len(B[1]) |-> RMinOf(SumAt(A, B, i, k))]])

\* Neighbours of grid point j among n >= 2, reflected at the ends.
Below(j) == IF j = 1 THEN 2 ELSE j - 1
Above(j, n) == IF j = n THEN n - 1 ELSE j + 1
\* Minimum of the parabola through f at j (a grid minimum) and its neighbours; f itself where it is flat
\* or has an unreachable neighbour.
Infinity == "1e20"
Reachable(x) == RLt(x, RMul(RHalf, Infinity))
Refine(f, j) == LET fm == f[Below(j)] fp == f[Above(j, Len(f))]
                    den == RSub(RAdd(fp, fm), RMul("2", f[j])) IN
                IF RGt(den, R0) /\ Reachable(den) THEN RSub(f[j], RDiv(RSq(RSub(fp, fm)), RMul("8", den))) ELSE f[j]
FirstMin(f) == LET m == RMinOf(f) IN CHOOSE j \in 1..Len(f) : REq(f[j], m) /\ \A i \in 1..(j - 1) : ~ REq(f[i], m)
Interp(A, B) == Eager([i \in 1..Len(A) |-> [k \in 1..Len(B[1]) |-> LET f == SumAt(A, B, i, k) IN Rd(Refine(f, FirstMin(f)))]])
\* The refinements over every grid point that is a minimum up to tol: with ties any of them is a refinement.
Refinements(f, tol) == LET m == RMinOf(f) IN { Refine(f, j) : j \in { i \in 1..Len(f) : RLe(f[i], RAdd(m, tol)) } }

\* Every result of combining the elements i..j of E pairwise in some order, op(left, right).
Orders(op(_, _), E) ==
  LET n == Len(E)
      RECURSIVE grow(_)
      \* a table: t[d][i] are the results for the d elements from i on
      grow(d) == IF d = 1 THEN << [i \in 1..n |-> {E[i]}] >>
                 ELSE LET t == grow(d - 1) IN
                      Append(t, Eager([i \in 1..(n - d + 1) |-> UNION { { op(a, b) : a \in t[m][i], b \in t[d - m][i + m] } : m \in 1..(d - 1) }]))
  IN  grow(n)
\* The same when the elements are n copies of V followed by the column W: r[k + 1] are the results of k copies and W.
Tails(op(_, _), V, W, n) ==
  LET RECURSIVE pw(_), tl(_)
      pw(d) == IF d = 1 THEN << {V} >>
               ELSE LET t == pw(d - 1) IN Append(t, Eager(UNION { { op(a, b) : a \in t[m], b \in t[d - m] } : m \in 1..(d - 1) }))
      P == IF n = 0 THEN << >> ELSE Eager(pw(n))
      tl(k) == IF k = 0 THEN << {W} >>
               ELSE LET t == tl(k - 1) IN Append(t, Eager(UNION { { op(a, b) : a \in P[m], b \in t[k - m + 1] } : m \in 1..k }))
  IN  tl(n)

--------------------------------------------------------------------------
(* Finite differences.  M is [f, L, LT]: polynomials in (x, u) and in x.                              *)
At2(p, x, u) == PolyAt(p, <<x, u>>)
Terminal(M, xg) == Eager([i \in 1..Len(xg) |-> PolyAt(M.LT, << xg[i] >>)])
Dx(xg) == RSub(xg[2], xg[1])
Slope(V, i, dx) == RDiv(RSub(V[i + 1], V[i]), dx)
\* One-sided at both ends; central inside.
Central(V, i, dx) == LET n == Len(V) IN IF i = 1 THEN Slope(V, 1, dx) ELSE IF i = n THEN Slope(V, n - 1, dx)
                     ELSE RDiv(RSub(V[i + 1], V[i - 1]), RMul("2", dx))
\* The difference in the direction in which the state moves.
Upwind(V, i, dx, v) == LET n == Len(V) IN IF i = 1 THEN Slope(V, 1, dx) ELSE IF i = n THEN Slope(V, n - 1, dx)
                       ELSE IF RGt(v, R0) THEN Slope(V, i, dx) ELSE Slope(V, i - 1, dx)
\* The Hamiltonian minimised over the control grid.
Ham(M, scheme, V, xg, ug, i) ==
  RMinOf(Eager([k \in 1..Len(ug) |->
    LET v == At2(M.f, xg[i], ug[k]) IN
    RAdd(At2(M.L, xg[i], ug[k]), RMul(v, IF scheme = "upwind" THEN Upwind(V, i, Dx(xg), v) ELSE Central(V, i, Dx(xg))))]))
FdStep(M, scheme, V, xg, ug, dt) == Eager([i \in 1..Len(V) |-> Rd(RAdd(V[i], RMul(dt, Ham(M, scheme, V, xg, ug, i))))])
RECURSIVE FdSteps(_, _, _, _, _, _, _)
FdSteps(M, scheme, V, xg, ug, dt, k) == IF k = 0 THEN V ELSE FdSteps(M, scheme, FdStep(M, scheme, V, xg, ug, dt), xg, ug, dt, k - 1)

--------------------------------------------------------------------------
(* Shooting.  The control is piecewise affine on n segments of length dt = T / n: u(t) = a[i] + b[i] (t - t_i).  *)
(* State and cost are integrated jointly.  Result: <<cost, x(T) - xf>>.                                          *)
Shoot(M, T, x0, xf, a, b) ==
  LET n == Len(a)
      dt == RDiv(T, n)
      RECURSIVE go(_)
      go(i) == IF i = 0 THEN << << <<x0>>, <<R0>> >> >>
               ELSE LET ti == RMul(i - 1, dt)
                        fld(z, t) == LET u == RAdd(a[i], RMul(b[i], RSub(t, ti))) IN << << << At2(M.f, z[1][1][1], u) >>, << At2(M.L, z[1][1][1], u) >> >> >>
                    IN  Rk4(fld, dt, go(i - 1), ti)
      z == Eager(go(n))
  IN  << z[1][2][1], RSub(z[1][1][1], xf) >>
\* Parametrisations: 1 is (a_1, b_1, a_2, b_2, ...); 2 is (a_1, b_1, ..., b_n) with a continuous control.
Segments(how, theta, T) ==
  IF how = 1 THEN LET n == Len(theta) \div 2 IN [a |-> [i \in 1..n |-> theta[2 * i - 1]], b |-> [i \in 1..n |-> theta[2 * i]]]
  ELSE LET n == Len(theta) - 1
           dt == RDiv(T, n)
           RECURSIVE lv(_)
           lv(i) == IF i = 1 THEN << theta[1] >> ELSE LET p == lv(i - 1) IN Append(p, RAdd(p[i - 1], RMul(theta[i], dt)))
       IN  [a |-> lv(n), b |-> [i \in 1..n |-> theta[i + 1]]]
ShootTheta(M, how, T, x0, xf, theta) == LET sg == Eager(Segments(how, theta, T)) IN Shoot(M, T, x0, xf, sg.a, sg.b)

\* For affine f and quadratic L the cost is quadratic and the end point affine in theta; both are read off
\* at the origin and at sums of unit vectors.  The conditional value is the minimum subject to x(T) = xf.
\* <<>> when the stationarity system is singular.
Unit(n, S) == [k \in 1..n |-> IF k \in S THEN R1 ELSE R0]
BestShot(M, how, T, n, x0, xf) ==
  LET d == IF how = 1 THEN 2 * n ELSE n + 1
      at(S) == ShootTheta(M, how, T, x0, xf, Unit(d, S))
      o == Eager(at({}))
      one == Eager([i \in 1..d |-> at({i})])
      two == Eager([i \in 1..d |-> [j \in 1..d |-> IF i < j THEN at({i, j}) ELSE o]])
      dbl == Eager([i \in 1..d |-> ShootTheta(M, how, T, x0, xf, [k \in 1..d |-> IF k = i THEN "2" ELSE R0])])
      G == Eager([i \in 1..d |-> [j \in 1..d |->
             IF i = j THEN RAdd(RSub(dbl[i][1], RMul("2", one[i][1])), o[1])
             ELSE LET p == IF i < j THEN two[i][j] ELSE two[j][i] IN RAdd(RSub(RSub(p[1], one[i][1]), one[j][1]), o[1])]])
      c == Eager([i \in 1..d |-> RSub(RSub(one[i][1], o[1]), RMul(RHalf, G[i][i]))])
      A == Eager([i \in 1..d |-> RSub(one[i][2], o[2])])
      K == Eager([i \in 1..(d + 1) |-> [j \in 1..(d + 1) |-> IF i <= d /\ j <= d THEN G[i][j]
                                        ELSE IF i = d + 1 /\ j = d + 1 THEN R0 ELSE IF i <= d THEN A[i] ELSE A[j]]])
      z == MSolveV(K, Eager([i \in 1..(d + 1) |-> IF i <= d THEN RNeg(c[i]) ELSE RNeg(o[2])]))
  IN  IF z = <<>> THEN z
      ELSE LET th == SubSeq(z, 1, d) IN << RAdd(RAdd(o[1], VDot(c, th)), RMul(RHalf, MQuad(th, G, th))) >>
=============================================================================
