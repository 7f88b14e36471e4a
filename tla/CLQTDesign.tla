---------------------------- MODULE CLQTDesign ----------------------------
(***************************************************************************)
(* Design-level facts about continuous-time LQ tracking in exact           *)
(* arithmetic.                                                             *)
(*                                                                         *)
(* kind "eq": at a point (t, S, v, A, b, C, eta, J) chosen freely the      *)
(* differential equations are the right ones:                              *)
(*   - the Hamilton-Jacobi-Bellman residual of (dS, dv) does not depend on *)
(*     the state, and the law minimises the Hamiltonian;                   *)
(*   - in its left end an element maps the value behind it to a value      *)
(*     that satisfies the Riccati equation; in its right end the value     *)
(*     before it does not change while the value behind it does so;        *)
(*   - the state where forward and backward values meet follows the        *)
(*     dynamics under the law.                                             *)
(* kind "scan": the blocks of a problem are merged in every order; the     *)
(* result maps the terminal value to the same initial value, and the       *)
(* distance to the sequential integration shrinks with the fourth power    *)
(* of the step.                                                            *)
(***************************************************************************)
EXTENDS CLQT, TLC, Randomization
CONSTANTS NPick, Blks
VARIABLES st
vars == st

M2 == [1..2 -> [1..2 -> -1..2]]
S2 == {[i \in 1..2 |-> [j \in 1..2 |-> IF i = j THEN a[i] ELSE a[3]]] : a \in [1..3 -> -1..2]}
V2 == [1..2 -> [1..1 -> -2..2]]
L2 == [1..2 -> [1..1 -> -1..2]]
Pd2 == {<< <<2, 1>>, <<1, 2>> >>, << <<1, 0>>, <<0, 3>> >>}
Pd1 == {<< <<1>> >>, << <<2>> >>}
Pick(S) == RandomSubset(1, S)
Problems == { p : p \in UNION { { [n |-> 2, m |-> 1, F |-> <<F0, F1>>, L |-> <<L0, L1>>, X |-> <<X0, MZero(2, 2), X0>>, U |-> <<U0, << <<0>> >>, << <<1>> >> >>,
                   c |-> <<c0, c1>>, H |-> <<H0, H1>>, r |-> <<r0, c1>>, ST |-> X0, vT |-> r0] :
                 F0 \in Pick(M2), F1 \in Pick(M2), L0 \in Pick(L2), L1 \in Pick(L2), X0 \in Pick(Pd2), U0 \in Pick(Pd1),
                 c0 \in Pick(V2), c1 \in Pick(V2), H0 \in Pick(M2), H1 \in Pick(M2), r0 \in Pick(V2) } : k \in 1..NPick } }
\* Small rates, so that the order of the integrator is visible in few steps.
Slow(p) == [p EXCEPT !.F = << MScale("1/4", p.F[1]), MScale("1/8", p.F[2]) >>, !.L = << MScale("1/4", p.L[1]), MScale("1/8", p.L[2]) >>,
                     !.X = << MScale("1/4", p.X[1]), p.X[2], MScale("1/8", p.X[3]) >>, !.H = << MScale("1/2", p.H[1]), MScale("1/4", p.H[2]) >>]
Init ==
  \/ \E p \in Problems, t \in {"0", "1", "-1/2"}, S \in RandomSubset(2, S2), v \in Pick(V2), A \in Pick(M2), b \in Pick(V2), C \in RandomSubset(2, S2), eta \in Pick(V2), J \in Pick(S2) :
       st = [kind |-> "eq", P |-> p, t |-> t, S |-> S, v |-> v, A |-> A, b |-> b, C |-> C, eta |-> eta, J |-> J]
  \/ \E p \in Problems, k \in Blks, steps \in {1, 2}, fw \in BOOLEAN, t0 \in {"0", "1/2"} :
       st = [kind |-> "scan", P |-> Slow(p), k |-> k, steps |-> steps, fw |-> fw, t0 |-> t0, segs |-> Append(Blocks(Slow(p), t0, "1/4", k, steps, fw), EndElem(Slow(p)))]
Merge == /\ st.kind = "scan" /\ \E i \in 1..(Len(st.segs) - 1) :
            st' = [st EXCEPT !.segs = SubSeq(st.segs, 1, i - 1) \o << ERnd(LQ!Comb(st.segs[i], st.segs[i + 1])) >> \o SubSeq(st.segs, i + 2, Len(st.segs))]
Next == Merge
Spec == Init /\ [][Next]_vars

\* Comparisons in the rounded arithmetic of the design runs (and exact up to it).
Eq(a, b) == MClose(a, b, "1e-20", "1e-20")
D(x, dt) == Riccati(st.P, x, dt)
PP == st.P
a == At(PP, st.t)
\* min_u H(x, u) + dV/dt, V = 1/2 x'Sx - v'x, up to a constant.
Hjb(x) ==
  LET dx == Riccati(PP, <<st.S, st.v>>, st.t)
      g == Eager(MSub(MMul(st.S, x), st.v))               \* gradient of V
      u == Eager(MNeg(MMul(a.W, g)))                        \* minimising control
      y == Eager(MSub(MMul(PAt(PP.H, st.t), x), PAt(PP.r, st.t)))
      q(w, M) == MMul3(MT(w), M, w)[1][1]
      U == PAt(PP.U, st.t)
  IN  [val |-> RSum(<< RMul(RHalf, q(y, PAt(PP.X, st.t))), RMul(RHalf, q(u, U)),
                       MMul(MT(g), MAdd(MAdd(MMul(a.F, x), a.c), MMul(a.L, u)))[1][1],
                       RMul(RHalf, q(x, dx[1])), RNeg(MMul(MT(dx[2]), x)[1][1]) >>),
       law |-> MAdd(u, MSub(MMul(LawK(PP, <<st.S, st.v>>, st.t), x), LawD(PP, <<st.S, st.v>>, st.t))),
       grad |-> MAdd(MMul(U, u), MMul(MT(a.L), g))]
Pts == {Col(<<0, 0>>), Col(<<1, 0>>), Col(<<0, -2>>), Col(<<3, 1>>)}
HjbHolds == st.kind = "eq" => \A x \in Pts : RClose(Hjb(x).val, Hjb(Col(<<0, 0>>)).val, "1e-20", "1e-20") /\ Eq(Hjb(x).law, MZero(1, 1)) /\ Eq(Hjb(x).grad, MZero(1, 1))

El == << st.A, st.b, st.C, st.eta, st.J >>
G == Eager(MSolve(MAdd(MId(2), MMul(st.S, st.C)), MId(2)))        \* (I + S C)^-1
Regular == MSolve(MAdd(MId(2), MMul(st.S, st.C)), MId(2)) # <<>>
w == Eager(MSub(st.v, MMul(st.S, st.b)))
Value0 == << Eager(MAdd(MMul(MT(st.A), MMul3(G, st.S, st.A)), st.J)), Eager(MAdd(MMul3(MT(st.A), G, w), st.eta)) >>
\* Its derivative along dA, db, dC, deta, dJ, dS, dv.
DValue0(e, ds) ==
  LET At0 == MT(st.A) dAt == MT(e[1])
      GS == Eager(MMul(G, st.S))
      dGS == Eager(MSub(MMul3(G, ds[1], MT(G)), MMul3(GS, e[3], GS)))
      dG == Eager(MNeg(MMul3(G, MAdd(MMul(ds[1], st.C), MMul(st.S, e[3])), G)))
      dw == MSub(ds[2], MAdd(MMul(ds[1], st.b), MMul(st.S, e[2])))
  IN  << MAdd(MAdd(MMul3(dAt, GS, st.A), MMul3(At0, GS, e[1])), MAdd(MMul3(At0, dGS, st.A), e[5])),
         MAdd(MAdd(MMul3(dAt, G, w), MMul3(At0, dG, w)), MAdd(MMul3(At0, G, dw), e[4])) >>
LeftEnd == (st.kind = "eq" /\ Regular) =>
  LET lhs == DValue0(ElemBw(PP, El, st.t), << MZero(2, 2), MZero(2, 1) >>) rhs == Riccati(PP, Value0, st.t) IN Eq(lhs[1], rhs[1]) /\ Eq(lhs[2], rhs[2])
RightEnd == (st.kind = "eq" /\ Regular) =>
  LET lhs == DValue0(ElemFw(PP, El, st.t), Riccati(PP, <<st.S, st.v>>, st.t)) IN Eq(lhs[1], MZero(2, 2)) /\ Eq(lhs[2], MZero(2, 1))
\* (I + C S) x = b + C v and dx = F x + c + L u, u = -K x + d.
MeetMoves == (st.kind = "eq" /\ Regular) =>
  LET x == Meet(st.S, st.v, st.b, st.C)
      ds == Riccati(PP, <<st.S, st.v>>, st.t) e == ElemFw3(PP, <<st.A, st.b, st.C>>, st.t)
      u == MSub(LawD(PP, <<st.S, st.v>>, st.t), MMul(LawK(PP, <<st.S, st.v>>, st.t), x))
      dx == MAdd(MAdd(MMul(a.F, x), a.c), MMul(a.L, u))
      ICS == MAdd(MId(2), MMul(st.C, st.S))
  IN  Eq(MAdd(MMul(MAdd(MMul(e[3], st.S), MMul(st.C, ds[1])), x), MMul(ICS, dx)), MAdd(MAdd(e[2], MMul(e[3], st.v)), MMul(st.C, ds[2])))

\* Whatever the order of merging, the whole maps the terminal value to the same value ...
Start(es) == LET e == Suffixes(es, 1)[1] IN << e.J, Col(e.eta) >>
All == Append(Blocks(PP, st.t0, "1/4", st.k, st.steps, st.fw), EndElem(PP))
Order == st.kind = "scan" => LET x == Start(st.segs) y == Start(All) IN Eq(x[1], y[1]) /\ Eq(x[2], y[2])
\* ... which the sequential integration reaches with the fourth order.
Err(refine) ==
  LET h == RDiv("1/4", refine) q == ParBackward(PP, st.k, st.steps * refine, st.t0, h, st.fw)
      b == Backward(PP, PP.ST, PP.vT, st.t0, h, st.k * st.steps * refine)
  IN  RMax(MMaxAbs(MSub(q.vals[1][1], b[1][1])), MMaxAbs(MSub(q.vals[1][2], b[1][2])))
\* A forward pass by blocks (from either end) returns what the roll-out returns, up to the same order.
ErrF(refine) ==
  LET h == RDiv("1/4", refine) nn == st.k * st.steps * refine
      b == Backward(PP, PP.ST, PP.vT, st.t0, h, nn)
      K == Eager([i \in 1..nn |-> LawK(PP, b[1 + ((i - 1) \div refine) * refine], Grid(st.t0, "1/4", (i - 1) \div refine))])
      d == Eager([i \in 1..nn |-> LawD(PP, b[1 + ((i - 1) \div refine) * refine], Grid(st.t0, "1/4", (i - 1) \div refine))])
      x0 == Col(<<1, -2>>)
      f == ParForward(PP, x0, K, d, st.k, st.steps * refine, st.t0, h, st.fw, FALSE)
      g == Roll(PP, x0, K, d, st.t0, h, FALSE, nn)
  IN  MMaxAbs(MSub(f.xs[nn + 1], g.xs[nn + 1]))
Small(e1, e2) == RLt(e1, "2e-2") /\ RLt(RMul("8", e2), RMax(e1, "1e-5"))
Order4 == (st.kind = "scan" /\ Len(st.segs) = st.k + 1) => Small(Err(1), Err(2)) /\ Small(ErrF(1), ErrF(2))
=============================================================================
