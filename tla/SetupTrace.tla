---------------------------- MODULE SetupTrace ----------------------------
(* Trace specification of the problem constructors: a call either produces the expanded problem or is rejected. *)
EXTENDS TraceBase
INSTANCE Setup

vars == <<s, l>>
Init == s \in 1..Len(Sessions) /\ l = 1
Same(a, b) == a.sh = b.sh /\ Len(a.v) = Len(b.v) /\ \A i \in 1..Len(b.v) : RIsNum(a.v[i]) /\ REq(a.v[i], b.v[i])
SameAll(as, bs) == Len(as) = Len(bs) /\ \A k \in 1..Len(bs) : Same(as[k], bs[k])

FscNew ==
  /\ Op("fsc")
  /\ Judge(LET A == Ev.args IN
           IF FscValid(A)
           THEN Chk(Ev.made = "yes", "valid-arguments-rejected",
                LET E == Eager(FscExpand(A)) IN
                Chk(SameAll(Ev.out.f, E.f), "transitions", Chk(SameAll(Ev.out.L, E.L), "stage-costs", Chk(SameAll(Ev.out.LT, << E.LT >>), "terminal-costs", OK))))
           ELSE Chk(Ev.made = "no", "invalid-arguments-accepted", OK))
  /\ Consume
LqtNew ==
  /\ Op("lqt")
  /\ Judge(LET A == Ev.args IN
           IF LqtValid(A)
           THEN Chk(Ev.made = "yes", "valid-arguments-rejected",
                LET E == Eager(LqtExpand(A)) bad == { n \in DOMAIN E : ~ SameAll(Ev.out[n], E[n]) } IN
                Chk(bad = {}, IF bad = {} THEN "" ELSE "expanded-" \o (CHOOSE n \in bad : TRUE), OK))
           ELSE Chk(Ev.made = "no", "invalid-arguments-accepted", OK))
  /\ Consume
Next == FscNew \/ LqtNew
Spec == Init /\ [][Next]_vars
=============================================================================
