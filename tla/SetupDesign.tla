---------------------------- MODULE SetupDesign ----------------------------
(***************************************************************************)
(* The constructors as step-by-step machines: find the number of stages    *)
(* from the first list, check and replicate one argument after the other,  *)
(* check the final stage, then every stage in order, stopping at the first *)
(* mismatch.  The machine ends in "made" exactly for the valid argument    *)
(* combinations, and what it made is the replication of the arguments.     *)
(***************************************************************************)
EXTENDS TLC
INSTANCE Setup

CONSTANTS MaxT, Faults
VARIABLES mode, A, pc, T, B, k
vars == <<mode, A, pc, T, B, k>>

It(sh) == [sh |-> sh, v |-> << >>]
SeqsUpTo(S, n) == UNION { [1..m -> S] : m \in 1..n }

\* ---- finite-state control: every combination over small shapes
Sh2 == { It(<<a, b>>) : a \in 1..2, b \in 1..2 }
Arg(S) == { One(x) : x \in S } \cup { [kind |-> "many", it |-> q] : q \in SeqsUpTo(S, MaxT) }
FscArgs == { [f |-> f, L |-> L, LT |-> LT, steps |-> n] : f \in Arg(Sh2 \cup {It(<<2, 2, 1>>)}), L \in Arg(Sh2),
             LT \in {None} \cup { One(x) : x \in {It(<<1>>), It(<<2>>), It(<<2, 1>>)} }, n \in 0..MaxT }

\* ---- tracking: 2 states, 1 control, 1 output, nominal shapes with up to `Faults` arguments replaced
Names == << "F", "L", "X", "U", "XT", "c", "H", "r", "HT", "rT", "Z", "s", "M" >>
Nominal(n) == CASE n = "F" -> <<2, 2>> [] n = "L" -> <<2, 1>> [] n = "X" -> <<1, 1>> [] n = "U" -> <<1, 1>> [] n = "XT" -> <<1, 1>>
                [] n = "c" -> <<2>> [] n = "H" -> <<1, 2>> [] n = "r" -> <<1>> [] n = "HT" -> <<1, 2>> [] n = "rT" -> <<1>>
                [] n = "Z" -> <<1, 1>> [] n = "s" -> <<1>> [] n = "M" -> <<1, 1>>
\* Every axis one larger; and both.
Bad(sh) == IF Len(sh) = 1 THEN { <<sh[1] + 1>>, <<sh[1], 1>> } ELSE { <<sh[1] + 1, sh[2]>>, <<sh[1], sh[2] + 1>>, <<sh[1] + 1, sh[2] + 1>>, <<sh[1]>> }
Final == {"XT", "HT", "rT"}
Must == {"F", "L", "X", "U"}
Variants(n) ==
  LET g == It(Nominal(n)) bad == { It(b) : b \in Bad(Nominal(n)) } IN
  (IF n \in Must THEN {} ELSE {None}) \cup { One(b) : b \in bad \cup {g} }
    \cup (IF n \in Final THEN {} ELSE { [kind |-> "many", it |-> q] : q \in SeqsUpTo({g} \cup bad, MaxT) })
Idx == 1..Len(Names)
Base(n, opt) == IF opt /\ n \notin Must THEN None ELSE One(It(Nominal(n)))
LqtInit ==
  \E S \in { Q \in SUBSET { Names[i] : i \in Idx } : Cardinality(Q) <= Faults } : \E opt \in BOOLEAN : \E n \in {0, 2} :
    \E V \in [S -> UNION { Variants(x) : x \in S }] : (\A x \in S : V[x] \in Variants(x)) /\
    A = [x \in { Names[i] : i \in Idx } \cup {"steps"} |-> IF x = "steps" THEN n ELSE IF x \in S THEN V[x] ELSE Base(x, opt)]

Init == /\ pc = "horizon" /\ T = 0 /\ k = 0 /\ B = << >>
        /\ \/ mode = "fsc" /\ A \in FscArgs
           \/ mode = "lqt" /\ LqtInit

Reject == pc' = "rejected" /\ UNCHANGED <<mode, A, T, B, k>>
Go(p) == pc' = p /\ UNCHANGED <<mode, A>>
FirstList(as) == CHOOSE i \in Lists(as) : \A j \in Lists(as) : i <= j
LeadOf == IF mode = "fsc" THEN << A.f, A.L >> ELSE Lead(A)
Horizon == pc = "horizon" /\
  LET ld == LeadOf IN
  IF Lists(ld) # {} THEN Go("expand") /\ T' = Len(ld[FirstList(ld)].it) /\ UNCHANGED <<B, k>>
  ELSE IF A.steps = 0 THEN Reject ELSE Go("expand") /\ T' = A.steps /\ UNCHANGED <<B, k>>
\* Replication of one argument; "bad" when a list has another length.
Rep(a) == IF a.kind = "many" THEN IF Len(a.it) = T THEN a.it ELSE << >> ELSE [j \in 1..T |-> a.it[1]]
Filled == IF mode = "fsc" THEN [f |-> A.f, L |-> A.L] ELSE LET F == LqtFill(A) IN [i \in { StageNames[j] : j \in 1..Len(StageNames) } |-> F[i]]
Expand == pc = "expand" /\
  IF mode = "lqt" /\ ~ Rooted(A) THEN Reject
  ELSE LET F == Filled Q == [n \in DOMAIN F |-> Rep(F[n])] IN
       IF \E n \in DOMAIN Q : Q[n] = << >> THEN Reject ELSE Go("final") /\ B' = Q /\ UNCHANGED <<T, k>>
FinalStep == pc = "final" /\
  IF mode = "fsc" THEN IF Len(B.f[1].sh) # 2 \/ FscLT(A.f, A.LT).sh # << B.f[1].sh[1] >> THEN Reject ELSE Go("stages") /\ k' = 1 /\ UNCHANGED <<T, B>>
  ELSE IF FinalOk(LqtFill(A), At(A.F, 1).sh[1]) THEN Go("stages") /\ k' = 1 /\ UNCHANGED <<T, B>> ELSE Reject
Stage == pc = "stages" /\
  IF k > T THEN Go("made") /\ UNCHANGED <<T, B, k>>
  ELSE IF mode = "fsc" THEN IF B.f[k].sh # B.f[1].sh \/ B.L[k].sh # B.f[1].sh THEN Reject ELSE Go("stages") /\ k' = k + 1 /\ UNCHANGED <<T, B>>
  ELSE IF StageOk([n \in DOMAIN B |-> [kind |-> "many", it |-> B[n]]], k, B.F[1].sh[1], B.L[1].sh[2]) THEN Go("stages") /\ k' = k + 1 /\ UNCHANGED <<T, B>> ELSE Reject
Next == Horizon \/ Expand \/ FinalStep \/ Stage
Spec == Init /\ [][Next]_vars

Valid == IF mode = "fsc" THEN FscValid(A) ELSE LqtValid(A)
Sound == /\ pc = "made" => Valid
         /\ pc = "rejected" => ~ Valid
Result == pc = "made" => LET E == IF mode = "fsc" THEN FscExpand(A) ELSE LqtExpand(A) IN
                         /\ \A n \in DOMAIN B : B[n] = E[n]
                         /\ mode = "lqt" => \A n \in DOMAIN B : Len(B[n]) = T
=============================================================================
