---------------------------- MODULE OdeDesign ----------------------------
(***************************************************************************)
(* Design-level facts about the integrator and the discretisation, exact.  *)
(* kind "rk4": a scalar field a x + sum c_k t^k stepped repeatedly with    *)
(* steps of changing size and direction.                                   *)
(* kind "lti": a nilpotent system composed with itself.                    *)
(***************************************************************************)
EXTENDS Ode, TLC, Randomization
CONSTANTS NPick, Steps
VARIABLES st
vars == st
Steps2 == {"1", "1/2", "-1/3"}
Terms(a, c) == << << [c |-> a, e |-> <<1, 0>>] >> \o [k \in 1..5 |-> [c |-> c[k], e |-> <<0, k - 1>>]] >>
Up(f) == << <<0, f[1], f[2]>>, <<0, 0, f[3]>>, <<0, 0, 0>> >>
Init ==
  \/ \E a \in {0, 1, -2}, c \in RandomSubset(NPick, [1..5 -> -1..1]) \cup {[k \in 1..5 |-> 0]}, t \in {"0", "-1", "3/2"}, x \in {0, 1} :
       st = [kind |-> "rk4", a |-> a, terms |-> Terms(a, [k \in 1..5 |-> c[k]]), x0 |-> <<x>>, t0 |-> t, x |-> <<x>>, t |-> t, it |-> 0, lin |-> R1, c4 |-> c[5], e4 |-> R0]
  \/ \E f \in [1..3 -> -1..2], b \in RandomSubset(IF NPick > 20 THEN 27 ELSE NPick, [1..3 -> -1..1]), h \in {"1", "1/2", "2"} :
       st = [kind |-> "lti", F |-> Up(f), G |-> Col(<<b[1], b[2], b[3]>>), h |-> h, it |-> 0,
             A |-> MId(3), B |-> MZero(3, 1), Q |-> MZero(3, 3)]
StepR == /\ st.kind = "rk4" /\ st.it < Steps
         /\ \E h \in Steps2 : st' = [st EXCEPT !.x = PolyStep(st.terms, h, st.x, st.t, <<>>), !.t = RAdd(st.t, h), !.it = st.it + 1,
              !.lin = LET z == RMul(st.a, h) IN RMul(st.lin, RSum(<<R1, z, RDiv(RMul(z, z), "2"), RDiv(RPow(z, 3), "6"), RDiv(RPow(z, 4), "24")>>)),
              !.e4 = RAdd(st.e4, RDiv(RPow(h, 5), "120"))]
LQL == MMul(st.G, MT(st.G))
StepL == /\ st.kind = "lti" /\ st.it < 3
         /\ LET A == MExp(st.F, st.h) IN
            st' = [st EXCEPT !.it = st.it + 1, !.A = Eager(MMul(A, st.A)), !.B = Eager(MAdd(MMul(A, st.B), InputGain(st.F, st.G, st.h))),
                             !.Q = Eager(MAdd(MMul3(A, st.Q, MT(A)), NoiseCov(st.F, LQL, st.h)))]
Next == StepR \/ StepL
Spec == Init /\ [][Next]_vars

\* Fields in t alone: exact up to cubics; a quartic is off by exactly h^5/120 per step.
Exact == (st.kind = "rk4" /\ st.a = 0) =>
  REq(st.x[1], RAdd(ExactStep(st.terms, RSub(st.t, st.t0), st.x0, st.t0, <<>>)[1], RMul(st.c4, st.e4)))
\* Homogeneous linear fields: the degree-four Taylor polynomial of the exponential.
Taylor == (st.kind = "rk4" /\ \A k \in 2..6 : st.terms[1][k].c = 0) => REq(st.x[1], RMul(st.lin, st.x0[1]))
\* k steps of length h compose to one of length k h.
Semigroup == st.kind = "lti" => LET H == RMul(st.it, st.h) IN
  /\ MEq(st.A, MExp(st.F, H)) /\ MEq(st.B, InputGain(st.F, st.G, H)) /\ MEq(st.Q, NoiseCov(st.F, LQL, H))
  /\ MEq(MMul(MExp(st.F, H), MExp(st.F, RNeg(H))), MId(3))
=============================================================================
