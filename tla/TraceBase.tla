----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* What every trace specification shares.  A trace file holds sessions;    *)
(* a session is a sequence of events recorded from the real code (one per  *)
(* public call, recorded at its return).  Every session is a behaviour of  *)
(* its own: TLC starts one initial state per session and consumes one      *)
(* event per step.  The verdict is total: an event that the specification  *)
(* does not allow is reported with the names of the clauses it breaks, and *)
(* the session goes on.                                                    *)
(***************************************************************************)
EXTENDS Mat, TLC, Json, IOUtils, FiniteSets

Sessions == JsonDeserialize(IOEnv.TRACE)

VARIABLES s, l       \* session, next event
Ev == Sessions[s].ev[l]
More == l <= Len(Sessions[s].ev)
Has(e, f) == f \in DOMAIN e

\* Chk(c1, "n1", Chk(c2, "n2", OK)): the name of the first clause that fails,
\* or "".  TLC evaluates operator arguments lazily, so a later clause may rely
\* on the earlier ones (value clauses on shape clauses).
OK == ""
Chk(cond, name, rest) == IF cond THEN rest ELSE name

Report(name) ==
  IF name = "" THEN TRUE ELSE PrintT(<<"FAIL", s, l, Ev.op, name>>)

\* The event is allowed iff the call did not raise and no clause fails.
Judge(bad) == Report(IF Has(Ev, "error") THEN "raised" ELSE bad)

Consume == l' = l + 1 /\ s' = s
Op(name) == More /\ Ev.op = name
=============================================================================
