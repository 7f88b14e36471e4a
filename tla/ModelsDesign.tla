--------------------------- MODULE ModelsDesign ---------------------------
(***************************************************************************)
(* Design-level facts about the benchmark models, by growing instances:    *)
(*   text   a training text grows character by character (any text)        *)
(*   walk   way points of the random walk, directions on a lattice         *)
(*   game   a runner under any controls                                    *)
(*   chain  chains of every length                                         *)
(*   car    the Jacobians against difference quotients, at operating points*)
(***************************************************************************)
EXTENDS TLC, Models
CONSTANTS MaxText, MaxWalk, MaxRun, MaxChain
VARIABLES m
vars == m
Dirs == { <<"1", "0">>, <<"0", "1">>, <<"3/5", "4/5">>, <<"4/5", "-3/5">>, <<"-4/5", "3/5">>, <<"-1", "0">>, <<"-3/5", "-4/5">>, <<"0", "-1">> }
Angles == { "0", "1/3", "-2" }
Init ==
  \/ \E K \in 1..3, n \in 1..2 : m = [what |-> "text", K |-> K, n |-> n, t |-> << >>]
  \/ m = [what |-> "walk", x |-> "5", y |-> "5", px |-> "5", py |-> "5", k |-> 0]
  \/ \E n \in 1..4, x \in 0..3 : x < n /\ m = [what |-> "game", n |-> n, x |-> x, k |-> 0]
  \/ m = [what |-> "chain", N |-> 1]
  \/ \E a \in Angles, v \in {"0", "2", "-1/2"}, dt \in {"0.1", "1"} : m = [what |-> "car", x |-> << R1, "-3", a, v >>, u |-> << "1/2", "-1" >>, dt |-> dt]

TextStep == m.what = "text" /\ Len(m.t) < MaxText /\ \E c \in 0..(m.K - 1) : m' = [m EXCEPT !.t = Append(@, c)]
\* a step that would leave the box is turned back, coordinate by coordinate
Turn(v, d) == LET w == RAdd(v, d) IN IF RLe(w, RHalf) \/ RLe("9.5", w) THEN RSub(v, d) ELSE w
WalkStep == m.what = "walk" /\ m.k < MaxWalk /\ \E d \in Dirs : m' = [m EXCEPT !.px = m.x, !.py = m.y, !.x = Turn(m.x, d[1]), !.y = Turn(m.y, d[2]), !.k = @ + 1]
GameStep == m.what = "game" /\ m.k < MaxRun /\ \E u \in 0..2 : m' = [m EXCEPT !.x = Move(m.n, @, u), !.k = @ + 1]
ChainStep == m.what = "chain" /\ m.N < MaxChain /\ m' = [m EXCEPT !.N = @ + 1]
Next == TextStep \/ WalkStep \/ GameStep \/ ChainStep
Spec == Init /\ [][Next]_vars

\* Hidden Markov models are well formed whatever the training text.
TextWellFormed ==
  m.what = "text" /\ Len(m.t) >= m.n =>
    LET P == Eager(Trans(m.K, m.n, m.t)) W == Pow(m.K, m.n) IN
    /\ \A g \in 1..W : Stochastic(P[g]) /\ Stochastic(OutputN(m.K, "0.1", m.n)[g])
    /\ Stochastic(Prior(m.K, m.n, m.t))
    /\ \A g \in 1..W, h \in 1..W : ~ Follows(m.K, m.n, g - 1, h - 1) => RLe(P[g][h], "1e-12")
    /\ m.n = 1 => \A g \in 1..W : VClose(P[g], FirstOrder(m.K, m.t)[g], "1e-11", R0)
\* Reading characters off the contexts of a text gives the text back.
CodecInverts ==
  m.what = "text" /\ Len(m.t) >= m.n =>
    /\ Decode(m.K, Grams(m.K, m.n, m.t)) = SubSeq(m.t, m.n, Len(m.t))
    /\ \A i \in 1..(Len(m.t) - m.n + 1), j \in 1..m.n : Digit(m.K, m.n, Grams(m.K, m.n, m.t)[i], j) = m.t[i + j - 1]
    /\ \A i \in 1..(Len(m.t) - m.n) : Follows(m.K, m.n, Grams(m.K, m.n, m.t)[i], Grams(m.K, m.n, m.t)[i + 1])
WalkStays == m.what = "walk" => InBox(m.x) /\ InBox(m.y) /\ (m.k > 0 => UnitApart(m.px, m.py, m.x, m.y))
GameStays == m.what = "game" => m.x \in 0..(m.n - 1)
\* Every state is reached from everywhere in n - 1 moves: the game is controllable.
GameMoves == m.what = "game" => \A y \in 0..(m.n - 1) : LET RECURSIVE go(_, _) go(x, k) == IF k = 0 THEN x ELSE go(Move(m.n, x, IF y > x THEN 2 ELSE IF y < x THEN 0 ELSE 1), k - 1) IN go(m.x, m.n - 1) = y
\* Counting the masses from the other end is the same chain with the forces exchanged and reversed.
Mirror(N, i) == 2 * (N - ((i + 1) \div 2)) + (IF i % 2 = 1 THEN 1 ELSE 2)
ChainMirrors == m.what = "chain" => LET N == m.N A == ChainF(N) B == ChainL(N) IN
  \A i \in 1..(2 * N) : (\A j \in 1..(2 * N) : A[i][j] = A[Mirror(N, i)][Mirror(N, j)]) /\ B[i][1] = RNeg(B[Mirror(N, i)][2])
\* Energy is lost to the dampers only: x' (P F + F' P) x <= 0 with P the energy; here its diagonal blocks.
Energy(N) == [ i \in 1..(2 * N) |-> [ j \in 1..(2 * N) |-> IF i % 2 = 0 THEN IF i = j THEN R1 ELSE R0 ELSE IF j % 2 = 0 THEN R0 ELSE RNeg(ChainF(N)[i + 1][j]) ] ]
ChainPassive == m.what = "chain" => LET N == m.N P == Energy(N) D == Eager(MAdd(MMul(P, ChainF(N)), MT(MMul(P, ChainF(N))))) IN
  \A i \in 1..(2 * N), j \in 1..(2 * N) : (i % 2 = 1 \/ j % 2 = 1) => REq(D[i][j], R0)
\* The Jacobians are limits of difference quotients.
H == "1e-30"
Bump(x, j) == [ x EXCEPT ![j] = RAdd(@, H) ]
Quot(a, b, i) == RDiv(RSub(a[i], b[i]), H)
CarDerives == m.what = "car" =>
  LET f(x, u) == CarF(m.dt, x, u) b == Eager(f(m.x, m.u)) IN
  /\ \A j \in 1..4 : LET a == Eager(f(Bump(m.x, j), m.u)) IN \A i \in 1..4 : RClose(Quot(a, b, i), CarFx(m.dt, m.x, m.u)[i][j], "1e-20", R0)
  /\ \A j \in 1..2 : LET a == Eager(f(m.x, Bump(m.u, j))) IN \A i \in 1..4 : RClose(Quot(a, b, i), CarFu(m.dt, m.x, m.u)[i][j], "1e-20", R0)
\* The point mass under a held force: its discretisation is the exact solution.
Discretised == m.what = "car" => LET F == CurveProblem(R0).F L == CurveProblem(R0).L IN
  MClose(O!MExp(F, m.dt), MassF(m.dt), "1e-60", R0) /\ MClose(O!InputGain(F, L, m.dt), MassL(m.dt), "1e-60", R0)
=============================================================================
