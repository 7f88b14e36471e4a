-------------------------------- MODULE CLQT --------------------------------
(***************************************************************************)
(* Continuous-time linear quadratic tracking on a time grid.               *)
(*                                                                         *)
(*   dx/dt = F x + c + L u                                                 *)
(*   cost  = int 1/2 |H x - r|^2_X + 1/2 |u|^2_U dt + 1/2 |HT x(T) - rT|^2_XT *)
(*                                                                         *)
(* A problem P is [n, m, F, L, X, U, c, H, r, ST, vT]: the parameters are  *)
(* polynomials in time, given by their sequence of coefficient matrices    *)
(* (c and r are columns); ST, vT describe the value at the end.            *)
(* Value functions are V(x) = 1/2 x'Sx - v'x, laws u = -K x + d.           *)
(***************************************************************************)
EXTENDS Ode, Integers
LQ == INSTANCE LQT

RECURSIVE PSumAt(_, _, _)
PSumAt(cs, t, k) == IF k = Len(cs) THEN cs[k] ELSE MAdd(cs[k], MScale(t, PSumAt(cs, t, k + 1)))
PAt(cs, t) == Eager(PSumAt(cs, t, 1))
Un(C) == [i \in 1..Len(C) |-> C[i][1]]

\* What the differential equations need at time t: U^-1 L', L U^-1 L', F, c, H'XH, H'Xr.
ULT(P, t) == MRound(Eager(MSolve(PAt(P.U, t), MT(PAt(P.L, t)))))
At(P, t) ==
  LET L == PAt(P.L, t) H == PAt(P.H, t) W == ULT(P, t)
      HX == Eager(MMul(MT(H), PAt(P.X, t)))
  IN  Eager([F |-> PAt(P.F, t), Ft |-> MT(PAt(P.F, t)), L |-> L, c |-> PAt(P.c, t), W |-> W, B |-> MMul(L, W),
             Q |-> MMul(HX, H), q |-> MMul(HX, PAt(P.r, t))])

--------------------------------------------------------------------------
(* The differential equations; a state is a sequence of matrices. *)
\* Value function <<S, v>>.
Riccati(P, x, t) ==
  LET a == At(P, t) S == x[1] v == x[2] SB == Eager(MMul(S, a.B)) IN
  << MSub(MAdd(MNeg(MMul(a.Ft, S)), MMul(SB, S)), MAdd(MMul(S, a.F), a.Q)),
     MAdd(MSub(MMul(S, a.c), a.q), MSub(MMul(SB, v), MMul(a.Ft, v))) >>
\* Conditional value function <<A, b, C, eta, J>> of [t, t1] in its left end t.
ElemBw(P, x, t) ==
  LET a == At(P, t) AB == Eager(MMul(x[1], a.B)) JB == Eager(MMul(x[5], a.B)) IN
  << MSub(MMul(AB, x[5]), MMul(x[1], a.F)),
     MNeg(MAdd(MMul(AB, x[4]), MMul(x[1], a.c))),
     MNeg(MMul(AB, MT(x[1]))),
     MAdd(MSub(MMul(JB, x[4]), a.q), MSub(MMul(x[5], a.c), MMul(a.Ft, x[4]))),
     MSub(MSub(MMul(JB, x[5]), a.Q), MAdd(MMul(x[5], a.F), MMul(a.Ft, x[5]))) >>
\* The same in its right end.
ElemFw(P, x, t) ==
  LET a == At(P, t) A == x[1] b == x[2] C == x[3] CQ == Eager(MMul(C, a.Q)) IN
  << MSub(MMul(a.F, A), MMul(CQ, A)),
     MAdd(MAdd(MMul(a.F, b), a.c), MSub(MMul(C, a.q), MMul(CQ, b))),
     MAdd(MAdd(MMul(a.F, C), MMul(C, a.Ft)), MSub(a.B, MMul(CQ, C))),
     MMul(MT(A), MSub(a.q, MMul(a.Q, b))),
     MMul3(MT(A), a.Q, A) >>
ElemFw3(P, x, t) == SubSeq(ElemFw(P, x \o << MZero(P.n, 1), MZero(P.n, P.n) >>, t), 1, 3)
\* The state under a constant law, or a constant control.
StateLaw(P, x, t, K, d) == LET a == At(P, t) IN << MAdd(MAdd(MMul(a.F, x[1]), a.c), MMul(a.L, MSub(d, MMul(K, x[1])))) >>
StateZoh(P, x, t, u) == LET a == At(P, t) IN << MAdd(MAdd(MMul(a.F, x[1]), a.c), MMul(a.L, u)) >>
\* The flow x1 = Psi x0 + phi under a constant law: <<Psi, phi>> in its right or left end.
FlowFw(P, x, t, K, d) ==
  LET a == At(P, t) tF == Eager(MSub(a.F, MMul(a.L, K))) tc == MAdd(a.c, MMul(a.L, d)) IN << MMul(tF, x[1]), MAdd(MMul(tF, x[2]), tc) >>
FlowBw(P, x, t, K, d) ==
  LET a == At(P, t) tF == Eager(MSub(a.F, MMul(a.L, K))) tc == MAdd(a.c, MMul(a.L, d)) IN << MNeg(MMul(x[1], tF)), MNeg(MMul(x[1], tc)) >>

--------------------------------------------------------------------------
(* One step of length dt, with the symmetric parts kept symmetric. *)
Grid(t0, dt, k) == RAdd(t0, RMul(dt, k))
SymAt(x, is) == Eager([i \in 1..Len(x) |-> IF i \in is THEN MSym(x[i]) ELSE x[i]])
RicStep(P, x, t, dt)  == LET f(y, u) == Riccati(P, y, u) IN SymAt(Rk4(f, dt, x, t), {1})
BwStep(P, x, t, dt)   == LET f(y, u) == ElemBw(P, y, u)  IN SymAt(Rk4(f, dt, x, t), {3, 5})
FwStep(P, x, t, dt)   == LET f(y, u) == ElemFw(P, y, u)  IN SymAt(Rk4(f, dt, x, t), {3, 5})
Fw3Step(P, x, t, dt)  == LET f(y, u) == ElemFw3(P, y, u) IN SymAt(Rk4(f, dt, x, t), {3})
LawStep(P, x, t, dt, K, d) == LET f(y, u) == StateLaw(P, y, u, K, d) IN Rk4(f, dt, x, t)
ZohStep(P, x, t, dt, w)    == LET f(y, u) == StateZoh(P, y, u, w) IN Rk4(f, dt, x, t)
FlowFwStep(P, x, t, dt, K, d) == LET f(y, u) == FlowFw(P, y, u, K, d) IN Rk4(f, dt, x, t)
FlowBwStep(P, x, t, dt, K, d) == LET f(y, u) == FlowBw(P, y, u, K, d) IN Rk4(f, dt, x, t)

\* The values on the grid t0, t0 + dt, ..., backwards from <<S, v>> at the last point.
RECURSIVE BackTo(_, _, _, _, _, _)
BackTo(P, x, t0, dt, steps, k) ==
  IF k = steps THEN << x >>
  ELSE LET rest == BackTo(P, x, t0, dt, steps, k + 1) IN << RicStep(P, Head(rest), Grid(t0, dt, k + 1), RNeg(dt)) >> \o rest
Backward(P, S, v, t0, dt, steps) == BackTo(P, << S, v >>, t0, dt, steps, 0)
\* The laws belonging to a value function.
LawK(P, x, t) == Eager(MMul(ULT(P, t), x[1]))
LawD(P, x, t) == Eager(MMul(ULT(P, t), x[2]))
\* States and controls under laws, from x0 (a column).
RECURSIVE Roll(_, _, _, _, _, _, _, _)
Roll(P, x0, K, d, t0, dt, zoh, k) ==
  IF k = 0 THEN [xs |-> << x0 >>, us |-> <<>>]
  ELSE LET tr == Roll(P, x0, K, d, t0, dt, zoh, k - 1) x == tr.xs[k] t == Grid(t0, dt, k - 1)
           u == Eager(MSub(d[k], MMul(K[k], x)))
           y == IF zoh THEN ZohStep(P, <<x>>, t, dt, u) ELSE LawStep(P, <<x>>, t, dt, K[k], d[k])
       IN  Eager([xs |-> Append(tr.xs, y[1]), us |-> Append(tr.us, u)])
\* The forward values <<A, b, C>> on the grid.
RECURSIVE ForwTo(_, _, _, _, _)
ForwTo(P, x, t0, dt, k) == IF k = 0 THEN << x >> ELSE LET p == ForwTo(P, x, t0, dt, k - 1) IN Append(p, Fw3Step(P, p[k], Grid(t0, dt, k - 1), dt))
Meet(S, v, b, C) == Eager(MSolve(MAdd(MId(Len(S)), MMul(C, S)), MAdd(b, MMul(C, v))))

--------------------------------------------------------------------------
(* Blocks. *)
Elem(x) == Eager([A |-> x[1], b |-> Un(x[2]), C |-> x[3], eta |-> Un(x[4]), J |-> x[5]])
Unit(n) == << MId(n), MZero(n, 1), MZero(n, n), MZero(n, 1), MZero(n, n) >>
RECURSIVE BlockBw(_, _, _, _, _, _), BlockFw(_, _, _, _, _)
BlockBw(P, t0, dt, steps, x, k) == IF k = 0 THEN x ELSE BlockBw(P, t0, dt, steps, BwStep(P, x, Grid(t0, dt, k), RNeg(dt)), k - 1)
BlockFw(P, t0, dt, x, k) == IF k = 0 THEN x ELSE FwStep(P, BlockFw(P, t0, dt, x, k - 1), Grid(t0, dt, k - 1), dt)
Block(P, t0, dt, steps, fw) == Elem(IF fw THEN BlockFw(P, t0, dt, Unit(P.n), steps) ELSE BlockBw(P, t0, dt, steps, Unit(P.n), steps))
Blocks(P, t0, dt, blocks, steps, fw) == Eager([k \in 1..blocks |-> Block(P, Grid(t0, dt, (k - 1) * steps), dt, steps, fw)])
EndElem(P) == Eager([A |-> MZero(P.n, P.n), b |-> VZero(P.n), C |-> MZero(P.n, P.n), eta |-> Un(P.vT), J |-> P.ST])
StartElem(P, x0) == Eager([A |-> MZero(P.n, P.n), b |-> x0, C |-> MZero(P.n, P.n), eta |-> VZero(P.n), J |-> MZero(P.n, P.n)])
ERnd(E) == Eager([A |-> MRound(E.A), b |-> Un(MRound(Col(E.b))), C |-> MRound(E.C), eta |-> Un(MRound(Col(E.eta))), J |-> MRound(E.J)])
RECURSIVE Suffixes(_, _), Prefixes(_, _)
Suffixes(es, k) == IF k = Len(es) THEN << es[k] >> ELSE LET rest == Suffixes(es, k + 1) IN << ERnd(LQ!Comb(es[k], Head(rest))) >> \o rest
Prefixes(es, k) == IF k = 1 THEN << es[1] >> ELSE LET p == Prefixes(es, k - 1) IN Append(p, ERnd(LQ!Comb(p[k - 1], es[k])))

\* Parallel backward pass: values at the block boundaries by composition, within blocks by integration.
ParBackward(P, blocks, steps, t0, dt, fw) ==
  LET es == Suffixes(Append(Blocks(P, t0, dt, blocks, steps, fw), EndElem(P)), 1)
      at(k) == << es[k].J, Col(es[k].eta) >>
      part == Eager([k \in 1..blocks |-> Backward(P, es[k + 1].J, Col(es[k + 1].eta), Grid(t0, dt, (k - 1) * steps), dt, steps)])
      N == blocks * steps
      blk(i) == 1 + (i - 1) \div steps          \* block of grid interval i
      off(i) == 1 + ((i - 1) % steps)
  IN  Eager([vals |-> [i \in 1..(N + 1) |-> IF i = 1 THEN at(1) ELSE part[blk(i - 1)][off(i - 1) + 1]],
             lawof |-> [i \in 1..N |-> part[blk(i)][off(i)]]])
SeqBackward(P, S, v, steps, t0, dt) == LET b == Backward(P, S, v, t0, dt, steps) IN Eager([vals |-> b, lawof |-> SubSeq(b, 1, steps)])

\* Parallel forward pass.
RECURSIVE FlowBlockFw(_, _, _, _, _, _, _), FlowBlockBw(_, _, _, _, _, _, _, _)
FlowBlockFw(P, K, d, t0, dt, x, k) == IF k = 0 THEN x ELSE FlowFwStep(P, FlowBlockFw(P, K, d, t0, dt, x, k - 1), Grid(t0, dt, k - 1), dt, K[k], d[k])
FlowBlockBw(P, K, d, t0, dt, steps, x, k) == IF k = 0 THEN x ELSE FlowBlockBw(P, K, d, t0, dt, steps, FlowBwStep(P, x, Grid(t0, dt, k), RNeg(dt), K[k], d[k]), k - 1)
Seg(z, k, steps) == SubSeq(z, (k - 1) * steps + 1, k * steps)
Flow(P, K, d, t0, dt, steps, fw) ==
  LET u == << MId(P.n), MZero(P.n, 1) >> IN IF fw THEN FlowBlockFw(P, K, d, t0, dt, u, steps) ELSE FlowBlockBw(P, K, d, t0, dt, steps, u, steps)
RECURSIVE Bounds(_, _, _)
Bounds(x0, fl, k) == IF k = 0 THEN << x0 >> ELSE LET p == Bounds(x0, fl, k - 1) IN Append(p, MRound(Eager(MAdd(MMul(fl[k][1], p[k]), fl[k][2]))))
ParForward(P, x0, K, d, blocks, steps, t0, dt, fw, zoh) ==
  LET fl == Eager([k \in 1..blocks |-> Flow(P, Seg(K, k, steps), Seg(d, k, steps), Grid(t0, dt, (k - 1) * steps), dt, steps, fw)])
      bs == Bounds(x0, fl, blocks)
      part == Eager([k \in 1..blocks |-> Roll(P, bs[k], Seg(K, k, steps), Seg(d, k, steps), Grid(t0, dt, (k - 1) * steps), dt, zoh, steps)])
      N == blocks * steps
      blk(i) == 1 + (i - 1) \div steps
      off(i) == 1 + ((i - 1) % steps)
  IN  Eager([xs |-> [i \in 1..(N + 1) |-> IF i = N + 1 THEN bs[blocks + 1] ELSE part[blk(i)].xs[off(i)]],
             us |-> [i \in 1..N |-> part[blk(i)].us[off(i)]]])

\* Forward values by blocks, met with the backward values.
MeetAll(P, K, d, vals, fwd) ==
  LET xs == Eager([i \in 1..Len(vals) |-> Meet(vals[i][1], vals[i][2], fwd[i][2], fwd[i][3])])
  IN  Eager([xs |-> xs, us |-> [i \in 1..Len(K) |-> MSub(d[i], MMul(K[i], xs[i]))]])
ParMeet(P, x0, K, d, vals, blocks, steps, t0, dt, fw) ==
  LET es == Prefixes(<< StartElem(P, Un(x0)) >> \o Blocks(P, t0, dt, blocks, steps, fw), blocks + 1)
      part == Eager([k \in 1..blocks |-> ForwTo(P, << es[k].A, Col(es[k].b), es[k].C >>, Grid(t0, dt, (k - 1) * steps), dt, steps)])
      N == blocks * steps
      fwd == [i \in 1..(N + 1) |-> IF i = N + 1 THEN part[blocks][steps + 1] ELSE part[1 + (i - 1) \div steps][1 + ((i - 1) % steps)]]
  IN  MeetAll(P, K, d, vals, fwd)

--------------------------------------------------------------------------
(* Time-invariant regulators also have exact steps: with                   *)
(* M = [F, -B; -Q, -F'] and <<C; D>>' = M <<C; D>>, S = D C^-1.            *)
Hamil(P) == LET a == At(P, R0) IN Eager(VCat(HCat(a.F, MNeg(a.B)), HCat(MNeg(a.Q), MNeg(a.Ft))))
TopOf(M, n) == SubSeq(M, 1, n)
BotOf(M, n) == SubSeq(M, n + 1, 2 * n)
ExactRic(P, E, S) == LET CD == Eager(MMul(E, VCat(MId(P.n), S))) IN MRound(Eager(MSym(MT(MSolve(MT(TopOf(CD, P.n)), MT(BotOf(CD, P.n)))))))
RECURSIVE ExactTo(_, _, _, _, _)
ExactTo(P, E, S, steps, k) == IF k = steps THEN << S >> ELSE LET rest == ExactTo(P, E, S, steps, k + 1) IN << ExactRic(P, E, Head(rest)) >> \o rest
ExactBackward(P, S, dt, steps) ==
  LET b == ExactTo(P, MExp(Hamil(P), RNeg(dt)), S, steps, 0) v == MZero(P.n, 1)
  IN  Eager([vals |-> [i \in 1..(steps + 1) |-> << b[i], v >>], lawof |-> [i \in 1..steps |-> << b[i], v >>]])
ExactRoll(P, x0, K, dt, zoh, steps) ==
  LET a == At(P, R0) A == MExp(a.F, dt) B == InputGain(a.F, a.L, dt)
      RECURSIVE go(_)
      go(k) == IF k = 0 THEN [xs |-> << x0 >>, us |-> <<>>]
               ELSE LET tr == go(k - 1) u == Eager(MNeg(MMul(K[k], tr.xs[k])))
                        y == IF zoh THEN MAdd(MMul(A, tr.xs[k]), MMul(B, u)) ELSE MMul(MExp(Eager(MSub(a.F, MMul(a.L, K[k]))), dt), tr.xs[k])
                    IN  Eager([xs |-> Append(tr.xs, MRound(y)), us |-> Append(tr.us, u)])
  IN  go(steps)
=============================================================================
