---------------------------- MODULE ViterbiTrace ----------------------------
(***************************************************************************)
(* Trace specification for the Viterbi decoders: a session defines a model *)
(* with observations and then decodes it in any ways, any number of times. *)
(***************************************************************************)
EXTENDS TraceBase, Viterbi

VARIABLES M, W, nl, best
vars == <<s, l, M, W, nl, best>>
None == <<>>
Init == s \in 1..Len(Sessions) /\ l = 1 /\ M = None /\ W = None /\ nl = None /\ best = R0

Less(q) == RMul(q, "0.999999999")   \* 1 - 1e-9
DefModel == /\ Op("model")
            /\ M' = Ev.M
            /\ W' = Scores(Ev.M)
            /\ nl' = Eager([j \in 1..(Ev.M.T + 1) |-> [x \in 1..Ev.M.n |-> RNeg(RLn(W'[j][x]))]])
            /\ best' = RMaxOf(W'[Ev.M.T + 1])
            /\ Judge(OK) /\ Consume

IsPath(p) == Len(p) = M.T + 1 /\ \A j \in 1..(M.T + 1) : p[j] \in 0..(M.n - 1)
Optimal(p) == RGe(Joint(M, p), Less(best))
OnOptimal(B, j) == {x \in 1..M.n : RGe(RMul(W[j][x], B[j][x]), Less(best))}
\* The scores: probabilities, or their negative logarithms.
Near(x, y) == RFinite(x) /\ RLe(RAbs(RSub(x, y)), RMul("1e-10", RAdd(R1, RAbs(y))))
ScoresOK(V) == \A j \in 1..(M.T + 1) : \A x \in 1..M.n :
                 IF Ev.form = "prob" THEN RLe(RAbs(RSub(V[j][x], W[j][x])), RMul("1e-11", W[j][x]))
                 ELSE Near(V[j][x], nl[j][x])
\* Ev.each: the decoder picks every state separately from the value functions.
Decode ==
  /\ Op("decode")
  /\ Judge(
       Chk(IsPath(Ev.path), "path-shape",
       Chk(IF Ev.each
           THEN LET B == Rest(M) ps == Eager([j \in 1..(M.T + 1) |-> OnOptimal(B, j)]) IN
                /\ \A j \in 1..(M.T + 1) : Ev.path[j] + 1 \in ps[j]
                /\ (\A j \in 1..(M.T + 1) : Cardinality(ps[j]) = 1) => Optimal(Ev.path)
           ELSE Optimal(Ev.path), "path-of-maximal-probability",
       Chk(Len(Ev.V) = M.T + 1 /\ \A j \in 1..(M.T + 1) : IsVec(Ev.V[j], M.n), "values-shape",
       Chk(ScoresOK(Ev.V), "values-are-path-scores", OK)))))
  /\ Consume /\ UNCHANGED <<M, W, nl, best>>

\* A path given to the control problem (reversed): the table follows it, and
\* its cost is the negative log-probability of the path.
ControlPath ==
  /\ Op("control")
  /\ Judge(
       Chk(Ev.xs = Rev(Ev.path), "control-problem-follows-path",
       Chk(Near(Ev.cost, RNeg(RLn(Joint(M, Ev.path)))), "control-cost-is-log-probability", OK)))
  /\ Consume /\ UNCHANGED <<M, W, nl, best>>

\* Converting a control solution back reverses time and leaves its input alone.
Back ==
  /\ Op("back")
  /\ Judge(
       Chk(Ev.path = Rev(Ev.xs), "path-reversed",
       Chk(Ev.V = Rev(Ev.Vs), "values-reversed",
       Chk(Ev.xs2 = Ev.xs /\ Ev.Vs2 = Ev.Vs, "input-unchanged", OK))))
  /\ Consume /\ UNCHANGED <<M, W, nl, best>>

Next == DefModel \/ Decode \/ ControlPath \/ Back
Spec == Init /\ [][Next]_vars
=============================================================================
