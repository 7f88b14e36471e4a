------------------------------ MODULE Models ------------------------------
(***************************************************************************)
(* The benchmark problems the library ships, from their documentation.     *)
(*   text    noisy text as a hidden Markov chain of the last n characters  *)
(*   channel the Gilbert-Elliott channel: two independent binary chains    *)
(*   game    a runner on a track of cells                                  *)
(*   walk    way points of a random walk in a box, tracked by a point mass *)
(*   car     position, heading and speed, tracking a closed curve          *)
(*   chain   N masses between springs and dampers, forces at both ends     *)
(*   grid    one-dimensional control problems for the grid solvers         *)
(* Characters and states are 0-based numbers, as in the library.           *)
(***************************************************************************)
EXTENDS Mat, FiniteSets

CONSTANT Bits
O == INSTANCE Ode WITH Bits <- Bits

RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
RPowN(a, n) == LET RECURSIVE p(_) p(k) == IF k = 0 THEN R1 ELSE RMul(a, p(k - 1)) IN p(n)
Row(f, n) == [j \in 1..n |-> f[j]]
Normal(row) == LET t == RSum(row) IN [j \in 1..Len(row) |-> RDiv(row[j], t)]
Stochastic(row) == (\A j \in 1..Len(row) : RLe(R0, row[j])) /\ RClose(RSum(row), R1, "1e-12", R0)

----------------------------------------------------------------------------
(* text: alphabet 0..K-1, contexts of n characters, the oldest first.       *)
Digit(K, n, g, i) == (g \div Pow(K, n - i)) % K                   \* i-th character (1..n) of context g
Gram(K, n, cs) == LET RECURSIVE v(_) v(i) == IF i = 0 THEN 0 ELSE K * v(i - 1) + cs[i] IN v(n)
Follows(K, n, g, h) == g % Pow(K, n - 1) = h \div K               \* h = g without its first character, and one more
Grams(K, n, t) == [ i \in 1..(Len(t) - n + 1) |-> Gram(K, n, SubSeq(t, i, i + n - 1)) ]
Count(seq, P(_)) == Cardinality({ i \in 1..Len(seq) : P(i) })
Output(K, e) == [ i \in 1..K |-> [ j \in 1..K |-> RAdd(IF i = j THEN RSub(R1, e) ELSE R0, RDiv(e, K)) ] ]
OutputN(K, e, n) == LET P == Eager(Output(K, e)) IN [ g \in 1..Pow(K, n) |-> P[((g - 1) % K) + 1] ]
\* every transition (n > 1: every consistent one) counted once more than it occurs
Trans(K, n, t) ==
  LET G == Eager(Grams(K, n, t)) W == Pow(K, n)
      times(g, h) == Cardinality({ i \in 1..(Len(G) - 1) : G[i] = g /\ G[i + 1] = h }) IN
  [ g \in 1..W |-> Normal(Eager([ h \in 1..W |-> RAdd(times(g - 1, h - 1), RAdd(IF n = 1 \/ Follows(K, n, g - 1, h - 1) THEN R1 ELSE R0, "1e-12")) ])) ]
FirstOrder(K, t) ==
  [ a \in 1..K |-> Normal(Eager([ b \in 1..K |-> R(1 + Cardinality({ i \in 1..(Len(t) - 1) : t[i] = a - 1 /\ t[i + 1] = b - 1 })) ])) ]
Prior(K, n, t) == LET G == Eager(Grams(K, n, t)) IN Normal(Eager([ g \in 1..Pow(K, n) |-> R(1 + Cardinality({ i \in 1..Len(G) : G[i] = g - 1 })) ]))
Decode(K, ys) == [ i \in 1..Len(ys) |-> ys[i] % K ]               \* a context stands for its last character

----------------------------------------------------------------------------
(* channel: state 2 b + s; s: good or bad channel, b: the bit sent.         *)
P0 == "0.03"
P1 == "0.1"
P2 == "0.05"
Q0 == "0.1"
Q1 == "0.3"
Not(p) == RSub(R1, p)
Switch(s, s2) == IF s = 0 THEN IF s2 = 1 THEN P0 ELSE Not(P0) ELSE IF s2 = 0 THEN P1 ELSE Not(P1)
Flip(b, b2) == IF b = b2 THEN Not(P2) ELSE P2
ChannelPi == [ i \in 1..4 |-> [ j \in 1..4 |-> RMul(Switch((i - 1) % 2, (j - 1) % 2), Flip((i - 1) \div 2, (j - 1) \div 2)) ] ]
ChannelPo == [ i \in 1..4 |-> [ y \in 1..2 |-> LET q == IF (i - 1) % 2 = 0 THEN Q0 ELSE Q1 IN IF y - 1 = (i - 1) \div 2 THEN Not(q) ELSE q ] ]
Bit(x) == x \div 2
\* relative frequencies of a sample: k out of n with probability p, within six standard deviations
Plausible(k, n, p) == RLe(RSq(RSub(k, RMul(n, p))), RAdd("9", RMul("36", RMul(n, RMul(p, Not(p))))))

----------------------------------------------------------------------------
(* game: cells 0..n-1; stay (1) is free, moving costs 1; the track adds its value. *)
Move(n, x, u) == LET y == x + u - 1 IN IF y < 0 THEN 0 ELSE IF y > n - 1 THEN n - 1 ELSE y
GameF(n) == [ x \in 1..n |-> [ u \in 1..3 |-> Move(n, x - 1, u - 1) ] ]
GameL(track, k) == [ x \in 1..Len(track) |-> [ u \in 1..3 |-> RAdd(track[x][k], IF u = 2 THEN R0 ELSE R1) ] ]
\* the scene: two runners lower the cells around them
Mask == << RHalf, "0.3", "0.1", "0.3", RHalf >>
Lower(p, y) == IF y - p \in -2..2 THEN Mask[y - p + 3] ELSE R1     \* runner at p, cell y
Fits(n, track, k, a, b) == \A y \in 0..(n - 1) : RClose(track[y + 1][k], RMul(Lower(a, y), Lower(b, y)), "1e-12", R0)
Near(a, b) == a - b \in -1..1
\* the pairs of positions that explain columns 1..k
RECURSIVE Runners(_, _, _)
Runners(n, track, k) ==
  IF k = 0 THEN { << n \div 2, n \div 2 >> }
  ELSE LET before == Eager(Runners(n, track, k - 1)) IN
       { p \in (0..(n - 1)) \X (0..(n - 1)) : (\E q \in before : Near(p[1], q[1]) /\ Near(p[2], q[2])) /\ Fits(n, track, k, p[1], p[2]) }

----------------------------------------------------------------------------
(* walk: way points, one unit apart, in [1/2, 19/2] x [1/2, 19/2].           *)
InBox(v) == RLe("0.5", v) /\ RLe(v, "9.5")
UnitApart(x, y, x2, y2) == RClose(RAdd(RSq(RSub(x2, x)), RSq(RSub(y2, y))), R1, "1e-9", R0)
WalkOk(xs, ys) == REq(xs[1], "5") /\ REq(ys[1], "5") /\ (\A k \in 1..Len(xs) : InBox(xs[k]) /\ InBox(ys[k]))
                  /\ (\A k \in 2..Len(xs) : UnitApart(xs[k - 1], ys[k - 1], xs[k], ys[k]))
(* tracked by a point mass, `steps` control intervals per way point: position and speed in the plane *)
Diag(v) == [ i \in 1..Len(v) |-> [ j \in 1..Len(v) |-> IF i = j THEN R(v[i]) ELSE R0 ] ]
MassF(dt) == << <<R1, R0, dt, R0>>, <<R0, R1, R0, dt>>, <<R0, R0, R1, R0>>, <<R0, R0, R0, R1>> >>
MassL(dt) == LET h == RMul(RHalf, RSq(dt)) IN << <<h, R0>>, <<R0, h>>, <<dt, R0>>, <<R0, dt>> >>
\* reference and weight of interval k (from 0): the way point in force; it counts at its own time only
Point(pts, steps, k) == [ i \in 1..Len(pts) |-> R(pts[i][(k \div steps) + 1]) ]
Weight(w, steps, k) == IF k % steps = 0 THEN Diag(w) ELSE Diag([ i \in 1..Len(w) |-> "1e-6" ])
LastPoint(pts) == [ i \in 1..Len(pts) |-> R(pts[i][Len(pts[i])]) ]
WalkProblem(pts, steps) ==
  LET N == Len(pts[1]) T == steps * N dt == RDiv(R1, steps) IN
  [ T |-> T, F |-> [ k \in 1..T |-> MassF(dt) ], L |-> [ k \in 1..T |-> MassL(dt) ], c |-> [ k \in 1..T |-> VZero(4) ],
    H |-> [ k \in 1..T |-> << <<R1, R0, R0, R0>>, <<R0, R1, R0, R0>> >> ], r |-> [ k \in 1..T |-> Point(pts, steps, k - 1) ],
    X |-> [ k \in 1..T |-> Weight(<<"100", "100">>, steps, k - 1) ], U |-> [ k \in 1..T |-> Diag(<<"0.1", "0.1">>) ],
    HT |-> MId(4), XT |-> MId(4), rT |-> LastPoint(pts) \o <<R0, R0>>, x0 |-> << R(pts[1][1]), R(pts[2][1]), R0, R0 >> ]
(* its continuous-time version follows a closed curve of period 50: six harmonics through the points *)
CX == << "5.7770", "-2.6692", "1.1187", "0.1379", "0.5718", "1.1214", "0.2998", "0.3325", "0.7451", "0.2117", "0.6595", "0.0401", "-0.2995" >>
CY == << "4.3266", "-1.4584", "-1.2457", "1.1804", "0.2035", "0.5123", "1.0588", "0.2616", "-0.6286", "-0.3802", "0.2750", "-0.0070", "-0.0022" >>
TwoPi == "6.28318530717958647692528676655900576839433879875021"
Curve(C, t) == LET a(k) == RDiv(RMul(RMul(TwoPi, k), t), "50") IN
               RAdd(C[1], RSum([ k \in 1..6 |-> RAdd(RMul(C[2 * k], RCos(a(k))), RMul(C[2 * k + 1], RSin(a(k)))) ]))
CurveProblem(t) ==
  [ F |-> [ i \in 1..4 |-> [ j \in 1..4 |-> IF j = i + 2 THEN R1 ELSE R0 ] ], L |-> << <<R0, R0>>, <<R0, R0>>, <<R1, R0>>, <<R0, R1>> >>, c |-> VZero(4),
    H |-> << <<R1, R0, R0, R0>>, <<R0, R1, R0, R0>> >>, X |-> MId(2), U |-> Diag(<<"0.1", "0.1">>), r |-> << Curve(CX, t), Curve(CY, t) >> ]
CurveEnd == [ HT |-> MId(4), XT |-> MId(4), rT |-> << R("4.9514"), R("4.4353"), R0, R0 >>, x0 |-> << R("5"), R("5"), R0, R0 >>, T |-> "50" ]

----------------------------------------------------------------------------
(* car: x = (position, heading, speed), u = (acceleration, turn rate).       *)
CarF(dt, x, u) == << RAdd(x[1], RMul(dt, RMul(x[4], RCos(x[3])))), RAdd(x[2], RMul(dt, RMul(x[4], RSin(x[3])))),
                     RAdd(x[3], RMul(dt, u[2])), RAdd(x[4], RMul(dt, u[1])) >>
CarFx(dt, x, u) == << << R1, R0, RNeg(RMul(dt, RMul(x[4], RSin(x[3])))), RMul(dt, RCos(x[3])) >>,
                      << R0, R1, RMul(dt, RMul(x[4], RCos(x[3]))), RMul(dt, RSin(x[3])) >>,
                      << R0, R0, R1, R0 >>, << R0, R0, R0, R1 >> >>
CarFu(dt, x, u) == << << R0, R0 >>, << R0, R0 >>, << R0, dt >>, << dt, R0 >> >>
(* the curve, N points of one round, with the heading towards the next point *)
LissX(t) == RSum(<< "7", RMul("4", RCos(t)), RMul("2", RSin(RMul("2", t))), RMul("2", RCos(RMul("3", t))) >>)
LissY(t) == RSum(<< "7", RMul("3", RSin(t)), RNeg(RSin(RMul("2", t))), RMul("2", RSin(RMul("3", t))) >>)
Heads(dx, dy, a) == LET n == RSqrt(RAdd(RSq(dx), RSq(dy))) IN RClose(RMul(n, RCos(a)), dx, "1e-9", R0) /\ RClose(RMul(n, RSin(a)), dy, "1e-9", R0)
RoundOk(N, D) == \A k \in 1..N :
  LET t == RDiv(RMul(TwoPi, k - 1), IF N > 1 THEN N - 1 ELSE 1) IN
  /\ RClose(D[1][k], LissX(t), "1e-10", R0) /\ RClose(D[2][k], LissY(t), "1e-10", R0)
  /\ IF k < N THEN Heads(RSub(D[1][k + 1], D[1][k]), RSub(D[2][k + 1], D[2][k]), D[3][k])
              ELSE IF N > 1 THEN RClose(D[3][k], D[3][k - 1], "1e-12", R0) ELSE REq(D[3][k], R0)
  /\ k > 1 => RLe(RAbs(RSub(D[3][k], D[3][k - 1])), "3.1415926536")
Every(row, steps) == [ i \in 1..(((Len(row) - 1) \div steps) + 1) |-> row[(i - 1) * steps + 1] ]
CarProblem(pts, steps) ==
  LET N == Len(pts[1]) T == steps * N IN
  [ T |-> T, c |-> [ k \in 1..T |-> VZero(4) ], H |-> [ k \in 1..T |-> << <<R1, R0, R0, R0>>, <<R0, R1, R0, R0>>, <<R0, R0, R1, R0>> >> ],
    r |-> [ k \in 1..T |-> Point(pts, steps, k - 1) ], X |-> [ k \in 1..T |-> Weight(<<"100", "100", "1000">>, steps, k - 1) ], U |-> [ k \in 1..T |-> Diag(<<"1", "100">>) ],
    HT |-> << <<R1, R0, R0, R0>>, <<R0, R1, R0, R0>>, <<R0, R0, R1, R0>> >>, XT |-> Diag(<<"1e-6", "1e-6", "1e-6">>), rT |-> LastPoint(pts),
    x0 |-> << R(pts[1][1]), R(pts[2][1]), R(pts[3][1]), R0 >> ]
\* Starting guess along the references: the speed is that since the last reference that lies apart in both coordinates.
RECURSIVE Guess(_, _, _)
Guess(r, dt, k) ==
  IF k = 0 THEN [ at |-> r[1], sp |-> R0, cnt |-> 0, xs |-> << >> ]
  ELSE LET g == Eager(Guess(r, dt, k - 1)) dx == RSub(r[k][1], g.at[1]) dy == RSub(r[k][2], g.at[2])
           far == RGt(RAbs(dx), "0.1") /\ RGt(RAbs(dy), "0.1")
           sp == IF far THEN RDiv(RSqrt(RAdd(RSq(dx), RSq(dy))), RMul(dt, g.cnt + 1)) ELSE g.sp IN
       [ at |-> IF far THEN r[k] ELSE g.at, sp |-> sp, cnt |-> IF far THEN 0 ELSE g.cnt + 1, xs |-> Append(g.xs, << R(r[k][1]), R(r[k][2]), R(r[k][3]), sp >>) ]

----------------------------------------------------------------------------
(* chain: y_i'' = (c/m)(y_{i-1} - 2 y_i + y_{i+1}) + (d/m)(the same of y'), the ends fixed; u_1/m on the first, -u_2/m on the last mass. *)
(* State: y_1, y_1', ..., y_N, y_N'; m = c = 1, d = 1/5.                      *)
ChainF(N) == [ i \in 1..(2 * N) |-> [ j \in 1..(2 * N) |->
  LET mi == (i + 1) \div 2 mj == (j + 1) \div 2 pos == (j % 2) = 1 IN
  IF i % 2 = 1 THEN IF j = i + 1 THEN R1 ELSE R0
  ELSE LET w == IF pos THEN R1 ELSE R("0.2") IN IF mi = mj THEN RMul("-2", w) ELSE IF mi - mj \in {-1, 1} THEN w ELSE R0 ] ]
ChainL(N) == [ i \in 1..(2 * N) |-> << IF i = 2 THEN R1 ELSE R0, IF i = 2 * N THEN R("-1") ELSE R0 >> ]
\* displaced at the start: the first mass and the middle one
ChainX0(N) == [ i \in 1..(2 * N) |-> IF i = 1 \/ i = (IF N % 2 = 0 THEN N + 1 ELSE N) THEN R1 ELSE R0 ]
\* number of steps of length dt in a horizon Tf: exact (up to rounding of the quotient) whenever it is a whole number
Steps(T, Tf, dt) == LET q == RDiv(Tf, dt) n == RFloor(RAdd(q, RHalf)) IN
                    IF RLe(RAbs(RSub(q, n)), "1e-9") THEN T = n ELSE RLt(RAbs(RSub(T, q)), R1)

----------------------------------------------------------------------------
(* grid: dynamics, costs and horizon of the one-dimensional problems; grids are uniform. *)
GridF(kind, x, u) == CASE kind = "linear" -> RAdd(x, u) [] kind = "velocity" -> RAdd(RSub(R1, RMul("0.1", RSq(x))), u) [] kind = "upwind" -> RMul(u, x)
GridL(kind, x, u) == IF kind = "upwind" THEN R0 ELSE RMul(RHalf, RAdd(RSq(x), RSq(u)))
GridLT(kind, x) == CASE kind = "linear" -> RSq(x) [] kind = "velocity" -> RMul("2", RSq(x)) [] kind = "upwind" -> RNeg(x)
GridX(kind) == CASE kind = "linear" -> << "-2", "2" >> [] kind = "velocity" -> << "-3", "3" >> [] kind = "upwind" -> << "-1", "1" >>
GridU(kind) == IF kind = "upwind" THEN << R0, R1 >> ELSE << "-2", "2" >>
Uniform(g, ends, n, tol) == Len(g) = n /\ \A i \in 1..n : RClose(g[i], RAdd(ends[1], RDiv(RMul(i - 1, RSub(ends[2], ends[1])), IF n > 1 THEN n - 1 ELSE 1)), tol, R0)
(* x' = u x with u in [0, 1]: from x0, xf is reached in time h iff it lies between x0 and x0 exp(h); on the end itself rounding decides *)
Reach(x0, xf, h, verdict) ==
  LET e == RMul(x0, RExp(h)) lo == RMin(x0, e) hi == RMax(x0, e) tie == RClose(xf, e, "1e-12", "1e-12") /\ ~ REq(x0, R0) IN
  tie \/ verdict = (RLe(lo, xf) /\ RLe(xf, hi))
=============================================================================
