-------------------------- MODULE AssocScanDesign --------------------------
(***************************************************************************)
(* All executions of the scan: the iterations inside one level of a pass   *)
(* run in every order; levels and passes are separated by barriers.        *)
(***************************************************************************)
EXTENDS AssocScan, TLC
CONSTANT NMax
VARIABLES n, a, a0, pass, d, todo
vars == <<n, a, a0, pass, d, todo>>

LogN == Log2Ceil(n)
Size == Pow2(LogN)
\* First cells of the iterations of level e (0-based, as in the code).
Iter(e) == {i \in 0..(Size - 1) : i % Pow2(e + 1) = 0}
I1(i, e) == i + Pow2(e)
I2(i, e) == i + Pow2(e + 1)

Init == /\ n \in 1..NMax
        /\ a0 = [i \in 1..Size |-> IF i <= n THEN <<i, i>> ELSE None]
        /\ a = a0
        /\ pass = "up" /\ d = 0
        /\ todo = IF LogN = 0 THEN {} ELSE Iter(0)

Up == /\ pass = "up" /\ \E i \in todo :
           /\ a' = UpPair(a, I1(i, d), I2(i, d)) /\ todo' = todo \ {i}
      /\ UNCHANGED <<n, a0, pass, d>>
UpBarrier == /\ pass = "up" /\ todo = {} /\ LogN > 0
             /\ IF d + 1 < LogN
                THEN d' = d + 1 /\ todo' = Iter(d + 1) /\ UNCHANGED <<a, pass>>
                ELSE /\ a' = [a EXCEPT ![Size] = None]
                     /\ pass' = "down" /\ d' = LogN - 1 /\ todo' = Iter(LogN - 1)
             /\ UNCHANGED <<n, a0>>
Skip == /\ pass = "up" /\ LogN = 0      \* a single element: no tree
        /\ a' = [a EXCEPT ![Size] = None]
        /\ pass' = "extra" /\ todo' = 1..Size /\ UNCHANGED <<n, a0, d>>
Down == /\ pass = "down" /\ \E i \in todo :
             /\ a' = DownPair(a, I1(i, d), I2(i, d)) /\ todo' = todo \ {i}
        /\ UNCHANGED <<n, a0, pass, d>>
DownBarrier == /\ pass = "down" /\ todo = {}
               /\ IF d > 0 THEN d' = d - 1 /\ todo' = Iter(d - 1) /\ UNCHANGED pass
                  ELSE pass' = "extra" /\ todo' = 1..Size /\ UNCHANGED d
               /\ UNCHANGED <<n, a, a0>>
Extra == /\ pass = "extra" /\ \E i \in todo :
              /\ a' = ExtraCell(a, a0, i) /\ todo' = todo \ {i}
         /\ UNCHANGED <<n, a0, pass, d>>
Done == /\ pass = "extra" /\ todo = {} /\ pass' = "done" /\ UNCHANGED <<n, a, a0, d, todo>>
Next == Up \/ UpBarrier \/ Skip \/ Down \/ DownBarrier \/ Extra \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* Only adjacent ranges are ever combined, left operand first.
NeverBad == \A i \in 1..Size : a[i] # Bad
\* After the up pass each full subtree root covers its whole subtree.
TreeOK == pass = "up" /\ todo = {} /\ LogN > 0 =>
   \A i \in Iter(d) : LET hi == I2(i, d) IN
       i + 1 <= n => a[hi] = <<i + 1, IF hi <= n THEN hi ELSE n>>
\* After the down pass each cell holds the exclusive prefix.
Exclusive == pass = "extra" /\ Cardinality(todo) = Size =>
   \A i \in 1..n : a[i] = IF i = 1 THEN None ELSE <<1, i - 1>>
\* Finally, every prefix in order.
Prefixes == pass = "done" => \A i \in 1..n : a[i] = <<1, i>>
Terminates == <>(pass = "done")
=============================================================================
