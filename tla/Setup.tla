------------------------------- MODULE Setup -------------------------------
(***************************************************************************)
(* Building a problem from a mix of omitted, constant and per-stage        *)
(* arguments.                                                              *)
(* An argument is [kind, it]: kind "none" (omitted), "one" (a constant,    *)
(* it has length 1) or "many" (one item per stage).  An item is [sh, v]:   *)
(* its shape and its entries in row order.  `steps` is the number of       *)
(* stages handed over, 0 if none is.                                       *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets

None == [kind |-> "none", it |-> << >>]
One(x) == [kind |-> "one", it |-> << x >>]
Given(a) == a.kind # "none"
At(a, k) == IF a.kind = "many" THEN a.it[k] ELSE a.it[1]
Eye(r, c) == [sh |-> << r, c >>, v |-> [i \in 1..(r * c) |-> IF (i - 1) \div c = (i - 1) % c THEN R1 ELSE R0]]
Zeros(sh, n) == [sh |-> sh, v |-> [i \in 1..n |-> R0]]
Ones(n) == [sh |-> << n >>, v |-> [i \in 1..n |-> R1]]

\* The number of stages: implied by any list among the leading arguments, otherwise handed over; 0 if unknown.
Lists(as) == { i \in 1..Len(as) : as[i].kind = "many" }
Stages(lead, steps) == IF Lists(lead) = {} THEN steps ELSE Len(lead[CHOOSE i \in Lists(lead) : TRUE].it)
LengthsOk(as, T) == \A i \in Lists(as) : Len(as[i].it) = T

--------------------------------------------------------------------------
(* Finite-state control: f, L of shape (states, controls), LT of shape (states); LT defaults to ones. *)
FscLT(f, LT) == IF Given(LT) THEN LT.it[1] ELSE Ones(At(f, 1).sh[1])
FscValid(A) ==
  LET T == Stages(<< A.f, A.L >>, A.steps) IN
  /\ T > 0 /\ LengthsOk(<< A.f, A.L >>, T)
  /\ Len(At(A.f, 1).sh) = 2
  /\ \A k \in 1..T : At(A.f, k).sh = At(A.f, 1).sh /\ At(A.L, k).sh = At(A.f, 1).sh
  /\ FscLT(A.f, A.LT).sh = << At(A.f, 1).sh[1] >>
FscExpand(A) == LET T == Stages(<< A.f, A.L >>, A.steps) IN
  [f |-> [k \in 1..T |-> At(A.f, k)], L |-> [k \in 1..T |-> At(A.L, k)], LT |-> FscLT(A.f, A.LT)]

--------------------------------------------------------------------------
(* Linear quadratic tracking.  States nx, controls nu; the outputs may differ from stage to stage. *)
Lead(A) == << A.F, A.L, A.X, A.U >>
StageNames == << "F", "L", "X", "U", "c", "H", "r", "Z", "s", "M" >>
FinalNames == << "XT", "HT", "rT" >>
\* Shapes of the first stage, from which the defaults take their sizes; usable only if `Rooted`.
Rooted(A) == Len(At(A.F, 1).sh) >= 1 /\ Len(At(A.L, 1).sh) >= 2 /\ Len(At(A.X, 1).sh) >= 1
LqtFill(A) ==
  LET nx == At(A.F, 1).sh[1] nu == At(A.L, 1).sh[2] nr == At(A.X, 1).sh[1]
      def(a, d) == IF Given(a) THEN a ELSE One(d) IN
  [F |-> A.F, L |-> A.L, X |-> A.X, U |-> A.U, steps |-> A.steps,
   XT |-> def(A.XT, Eye(nr, nr)), HT |-> def(A.HT, Eye(nr, nx)), rT |-> def(A.rT, Zeros(<< nr >>, nr)),
   c |-> def(A.c, Zeros(<< nx >>, nx)), H |-> def(A.H, Eye(nr, nx)), r |-> def(A.r, Zeros(<< nr >>, nr)),
   Z |-> def(A.Z, Eye(nu, nu)), s |-> def(A.s, Zeros(<< nu >>, nu)), M |-> def(A.M, Zeros(<< nr, nu >>, nr * nu))]
StageOk(B, k, nx, nu) ==
  /\ At(B.F, k).sh = << nx, nx >> /\ At(B.L, k).sh = << nx, nu >> /\ At(B.U, k).sh = << nu, nu >>
  /\ At(B.c, k).sh = << nx >> /\ At(B.Z, k).sh = << nu, nu >> /\ At(B.s, k).sh = << nu >>
  /\ Len(At(B.X, k).sh) = 2
  /\ LET nr == At(B.X, k).sh[1] IN
     At(B.X, k).sh = << nr, nr >> /\ At(B.H, k).sh = << nr, nx >> /\ At(B.r, k).sh = << nr >> /\ At(B.M, k).sh = << nr, nu >>
FinalOk(B, nx) == Len(B.XT.it[1].sh) = 2 /\ LET nr == B.XT.it[1].sh[1] IN
                  B.XT.it[1].sh = << nr, nr >> /\ B.HT.it[1].sh = << nr, nx >> /\ B.rT.it[1].sh = << nr >>
LqtValid(A) ==
  LET T == Stages(Lead(A), A.steps) IN
  /\ T > 0 /\ LengthsOk([i \in 1..Len(StageNames) |-> A[StageNames[i]]], T)
  /\ Rooted(A)
  /\ LET B == LqtFill(A) nx == At(A.F, 1).sh[1] nu == At(A.L, 1).sh[2] IN
     /\ FinalOk(B, nx)
     /\ \A k \in 1..T : StageOk(B, k, nx, nu)
LqtExpand(A) == LET T == Stages(Lead(A), A.steps) B == LqtFill(A) IN
  [n \in { StageNames[i] : i \in 1..Len(StageNames) } \cup { FinalNames[i] : i \in 1..Len(FinalNames) } |->
     IF n \in {"XT", "HT", "rT"} THEN << B[n].it[1] >> ELSE [k \in 1..T |-> At(B[n], k)]]
=============================================================================
