----------------------------- MODULE HjbDesign -----------------------------
(***************************************************************************)
(* Two machines and some laws.                                             *)
(*  merge: blocks of conditional value functions (2 x 2 matrices over      *)
(*    Costs, the largest one standing for "unreachable") are combined      *)
(*    pairwise in any order.  Whatever the order, every value stands for   *)
(*    the min-plus product of the blocks it covers.                        *)
(*  fd: two terminal value functions V <= W are carried backwards by the   *)
(*    upwind scheme under its step bound (dt |f| <= dx, velocities point   *)
(*    inwards at the ends).  They stay ordered, W - V keeps its bound, and *)
(*    adding a constant to V adds it to the result.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
INSTANCE Hjb WITH Bits <- 0

CONSTANTS NBlocks, Costs, Levels, Horizon
N == 3
Mats == { << <<a, b>>, <<c, d>> >> : a \in Costs, b \in Costs, c \in Costs, d \in Costs }
Q4(k) == RDiv(k, 4)

VARIABLES mode, st
vars == <<mode, st>>

Init ==
  \/ mode = "merge" /\ \E E \in [1..NBlocks -> Mats] : st = [E |-> E, parts |-> [i \in 1..NBlocks |-> [lo |-> i, hi |-> i, v |-> E[i]]]]
  \/ mode = "fd" /\ \E V \in [1..N -> Levels] : \E W \in [1..N -> Levels] :
       /\ \A i \in 1..N : RLe(V[i], W[i])
       /\ st = [V |-> V, W |-> W, top |-> RMaxOf([i \in 1..N |-> RSub(W[i], V[i])]), k |-> 0]

Merge == mode = "merge" /\ \E i \in 1..(Len(st.parts) - 1) :
  LET p == st.parts[i] q == st.parts[i + 1] IN
  st' = [st EXCEPT !.parts = SubSeq(st.parts, 1, i - 1) \o << [lo |-> p.lo, hi |-> q.hi, v |-> MinPlus(p.v, q.v)] >> \o SubSeq(st.parts, i + 2, Len(st.parts))]

\* dx = 1, f = u - x/2 on the grid -1, 0, 1 with u in {-1/2, 0, 1/2}: at the ends never outwards; |f| <= 1, dt = 1/2.
T2(c, e) == [c |-> c, e |-> e]
M == [f |-> << T2("1", <<0, 1>>), T2("-1/2", <<1, 0>>) >>, L |-> << T2("1/2", <<2, 0>>), T2("1/4", <<1, 1>>), T2("1", <<0, 2>>) >>, LT |-> << >>]
Xg == << "-1", "0", "1" >>
Ug == << "-1/2", "0", "1/2" >>
Up(V) == FdStep(M, "upwind", V, Xg, Ug, RHalf)
Back == mode = "fd" /\ st.k < Horizon /\ st' = [st EXCEPT !.V = Up(st.V), !.W = Up(st.W), !.k = st.k + 1]

Next == (Merge \/ Back) /\ mode' = mode
Spec == Init /\ [][Next]_vars

RECURSIVE Prod(_, _, _)
Prod(E, i, j) == IF i = j THEN E[i] ELSE MinPlus(E[i], Prod(E, i + 1, j))
Covers == mode = "merge" => \A i \in 1..Len(st.parts) : MEq(st.parts[i].v, Prod(st.E, st.parts[i].lo, st.parts[i].hi))
\* A path through the blocks never costs less than the product says, and some path attains it.
Paths(E) == [1..(Len(E) - 1) -> 1..2]
PathCost(E, i, p, k) == RSum([b \in 1..Len(E) |-> E[b][IF b = 1 THEN i ELSE p[b - 1]][IF b = Len(E) THEN k ELSE p[b]]])
Optimal == (mode = "merge" /\ Len(st.parts) = 1) => \A i \in 1..2 : \A k \in 1..2 :
             /\ \A p \in Paths(st.E) : RLe(st.parts[1].v[i][k], PathCost(st.E, i, p, k))
             /\ \E p \in Paths(st.E) : REq(st.parts[1].v[i][k], PathCost(st.E, i, p, k))
Ordered == mode = "fd" => \A i \in 1..N : RLe(st.V[i], st.W[i]) /\ RLe(RSub(st.W[i], st.V[i]), st.top)
Shift == mode = "fd" => VEq(Up([i \in 1..N |-> RAdd(st.V[i], "3")]), [i \in 1..N |-> RAdd(Up(st.V)[i], "3")])
Inv == Covers /\ Optimal /\ Ordered /\ Shift

\* ---- the parabola
Fs == UNION { [1..n -> 0..3] : n \in 2..4 }
Str(f) == [i \in 1..Len(f) |-> R(f[i])]
Rev(f) == [i \in 1..Len(f) |-> f[Len(f) + 1 - i]]
MinAt(f) == { j \in 1..Len(f) : \A i \in 1..Len(f) : f[j] <= f[i] }
\* It lowers the minimum by at most an eighth of the curvature, is symmetric and invariant, and does nothing at the ends.
ASSUME \A f0 \in Fs : LET f == Str(f0) n == Len(f0) IN \A j \in MinAt(f0) :
         LET r == Refine(f, j) den == RSub(RAdd(f[Below(j)], f[Above(j, n)]), RMul("2", f[j])) IN
         /\ RLe(r, f[j]) /\ RGe(r, RSub(f[j], RDiv(den, "8")))
         /\ REq(Refine([i \in 1..n |-> RAdd(f[i], "5")], j), RAdd(r, "5"))
         /\ REq(Refine([i \in 1..n |-> RMul("3", f[i])], j), RMul("3", r))
         /\ REq(Refine(Rev(f), n + 1 - j), r)
         /\ (j = 1 \/ j = n) => REq(r, f[j])
\* Exact for a parabola with its vertex inside the grid.
ASSUME \A v \in 5..15 : \A c \in 1..3 :
         LET f == [j \in 1..4 |-> RAdd(RMul(c, RSq(RSub(j, Q4(v)))), "7")] j == FirstMin(f) IN (j \in 2..3) => REq(Refine(f, j), "7")
\* Not associative: the order of combination shows (this is why a parallel pass is compared with every order).
ASSUME LET V == << <<"0", "1", "4">>, <<"1", "0", "2">>, <<"4", "1", "0">> >> W == << <<"2">>, <<"0">>, <<"1">> >> IN
         ~ MEq(Interp(V, Interp(V, W)), Interp(Interp(V, V), W))
\* Both schemes differentiate a linear value function exactly; on it they agree.
ASSUME \A p \in -2..2 : LET V == [i \in 1..N |-> RAdd(RMul(p, Xg[i]), "1")]
                            H(i) == RMinOf([k \in 1..3 |-> RAdd(At2(M.L, Xg[i], Ug[k]), RMul(p, At2(M.f, Xg[i], Ug[k])))]) IN
         \A sch \in {"central", "upwind"} : VEq(FdStep(M, sch, V, Xg, Ug, RHalf), [i \in 1..N |-> RAdd(V[i], RMul(RHalf, H(i)))])
\* Central differences are exact inside for a quadratic value function.
ASSUME LET V == [i \in 1..N |-> RSq(Xg[i])] IN REq(Central(V, 2, R1), R0)
\* Shooting: the two parametrisations agree when the second one's control is written in the first one's terms,
\* and a constant control of a pure integrator moves by u T at cost T L(u).
MI == [f |-> << T2("1", <<0, 1>>) >>, L |-> << T2("1", <<0, 2>>) >>, LT |-> << >>]
ASSUME LET r == ShootTheta(M, 2, "1", "1/2", "1/4", <<"1", "2", "-1">>) q == ShootTheta(M, 1, "1", "1/2", "1/4", <<"1", "2", "2", "-1">>) IN VEq(r, q)
ASSUME VEq(ShootTheta(MI, 1, "2", "1", "0", <<"3", "0", "3", "0">>), <<"18", "7">>)
\* The best shot of the integrator is the straight line, in either parametrisation.
ASSUME \A how \in 1..2 : \A n \in 1..2 : VEq(BestShot(MI, how, "2", n, "1", "4"), << "9/2" >>)
=============================================================================
