---------------------------- MODULE PurityTrace ----------------------------
(***************************************************************************)
(* Trace specification: histories of calls on shared problem objects.      *)
(*   "give"  the caller makes a value (a problem, an array, a deep copy)   *)
(*   "edit"  the caller writes into an array of its own                    *)
(*   "call"  a routine is called; `after` are the digests of everything    *)
(*           the caller holds when it returns, `new` that of its result.   *)
(* Digests are of values (bytes, types, shapes), results are numbers.      *)
(***************************************************************************)
EXTENDS TraceBase
INSTANCE Purity

VARIABLES store, memo
vars == <<s, l, store, memo>>
Init == s \in 1..Len(Sessions) /\ l = 1 /\ store = << >> /\ memo = << >>

\* Equal up to rounding: another order of summation is another rounding.
Scale(a) == RMaxOf(<< R1 >> \o [ i \in 1..Len(a) |-> IF RFinite(R(a[i])) THEN RAbs(R(a[i])) ELSE R0 ])
Same(a, b) == Len(a) = Len(b) /\
  LET t == Eager(RMul(R(Ev.tol), Scale(a))) IN
  \A i \in 1..Len(a) : IF RFinite(R(a[i])) /\ RFinite(R(b[i])) THEN RLe(RAbs(RSub(R(a[i]), R(b[i]))), t) ELSE a[i] = b[i]

Give ==
  /\ Op("give")
  /\ store' = Append(store, Ev.new) /\ UNCHANGED memo /\ Consume

Call ==
  /\ Op("call")
  /\ LET key == Key(Ev.name, Ev.args, store) IN
     /\ Judge(Chk(Frame(store, Ev.after), "frame-" \o Ev.name,
              Chk(Repeatable(memo, key, Ev.res, Same), "repeatable-" \o Ev.name, OK)))
     /\ IF Has(Ev, "error")
        THEN store' = Ev.after /\ UNCHANGED memo
        ELSE store' = Append(Ev.after, Ev.new) /\ memo' = Append(memo, << key, Ev.res >>)
  /\ Consume

\* what the caller does to its own data is its own affair; the library sees the new values from now on
Edit ==
  /\ Op("edit")
  /\ Len(Ev.after) = Len(store) /\ store' = Ev.after /\ UNCHANGED memo /\ Consume

Next == Give \/ Call \/ Edit
Spec == Init /\ [][Next]_vars
=============================================================================
