------------------------------ MODULE Condense ------------------------------
(***************************************************************************)
(* Partial condensing: N stages become one whose control is the tuple of   *)
(* their controls.  In (x, u_1..u_N) the states inside the block are       *)
(* affine, X_i = A_i x + B_i u + c_i, so the block cost is one quadratic   *)
(* form.  Trailing stages that are missing are padded with x' = x and unit *)
(* control cost.  Stage form: (x, u) -> 1/2 x'Qx x + ... kept as the       *)
(* matrices Q, R, S and the linear terms q, r of                           *)
(*   1/2 x'Qx + 1/2 u'Ru + u'Sx + q'x + r'u + const.                       *)
(***************************************************************************)
EXTENDS LQT

Pad(P, Nc) ==
  LET T == ((P.T + Nc - 1) \div Nc) * Nc
      ext(f, x) == [k \in 1..T |-> IF k <= P.T THEN f[k] ELSE x]
      p == Len(P.X[1])
  IN  Eager([P EXCEPT !.T = T, !.F = ext(P.F, MId(P.n)), !.L = ext(P.L, MZero(P.n, P.m)), !.c = ext(P.c, VZero(P.n)),
             !.H = ext(P.H, MZero(p, P.n)), !.r = ext(P.r, VZero(p)), !.X = ext(P.X, MZero(p, p)), !.U = ext(P.U, MId(P.m)),
             !.Z = ext(P.Z, MId(P.m)), !.s = ext(P.s, VZero(P.m)), !.M = ext(P.M, MZero(p, P.m))])

\* Placement of a block's i-th control among the N*m.
Slot(P, Nc, i) == [a \in 1..P.m |-> [b \in 1..(Nc * P.m) |-> IF b = (i - 1) * P.m + a THEN R1 ELSE R0]]

\* Stages k, k+1, .., k+N-1 taken one at a time: the state so far and the cost.
RECURSIVE BlockTo(_, _, _, _)
BlockTo(P, k, Nc, i) ==
  LET m == Nc * P.m IN
  IF i = 0 THEN [A |-> MId(P.n), B |-> MZero(P.n, m), c |-> VZero(P.n), Q |-> MZero(P.n, P.n), R |-> MZero(m, m), S |-> MZero(m, P.n), q |-> VZero(P.n), r |-> VZero(m)]
  ELSE LET b == BlockTo(P, k, Nc, i - 1)
           j == k + i - 1
           E == Eager(Slot(P, Nc, i))
           F == P.F[j] L == P.L[j]
           Qs == Eager(QXX(P, j)) Rs == Eager(QUU(P, j)) Ss == Eager(QUX(P, j))
           g == Eager(VAdd(MVec(Qs, b.c), LX(P, j)))        \* derivative in the state at u = 0, x = 0
           h == Eager(VAdd(MVec(Ss, b.c), LU(P, j)))
       IN Eager([A |-> MMul(F, b.A), B |-> MAdd(MMul(F, b.B), MMul(L, E)), c |-> VAdd(MVec(F, b.c), P.c[j]),
           Q |-> MAdd(b.Q, MMul3(MT(b.A), Qs, b.A)),
           R |-> MAdd(MAdd(b.R, MMul3(MT(b.B), Qs, b.B)),
                      MAdd(MMul3(MT(E), Rs, E), MAdd(MMul3(MT(E), Ss, b.B), MT(MMul3(MT(E), Ss, b.B))))),
           S |-> MAdd(b.S, MAdd(MMul3(MT(b.B), Qs, b.A), MMul3(MT(E), Ss, b.A))),
           q |-> VAdd(b.q, MVec(MT(b.A), g)),
           r |-> VAdd(b.r, VAdd(MVec(MT(b.B), g), MVec(MT(E), h)))])
Block(P, k, Nc) == BlockTo(P, k, Nc, Nc)

\* One Bellman step over a block, the next value being N (constants dropped).
BlockBefore(b, N) ==
  LET G == Eager(MAdd(b.R, MMul3(MT(b.B), N.S, b.B)))
      Gx == Eager(MAdd(b.S, MMul3(MT(b.B), N.S, b.A)))
      w == Eager(VSub(MVec(N.S, b.c), N.v))
      g == Eager(VAdd(b.r, MVec(MT(b.B), w)))
      K == Eager(MSolve(G, Gx)) d == Eager(VNeg(MSolveV(G, g)))
  IN  [S |-> Eager(MSub(MAdd(b.Q, MMul3(MT(b.A), N.S, b.A)), MMul(MT(Gx), K))),
       v |-> Eager(VNeg(VAdd(VAdd(b.q, MVec(MT(b.A), w)), MVec(MT(Gx), d)))), K |-> K, d |-> d]
=============================================================================
