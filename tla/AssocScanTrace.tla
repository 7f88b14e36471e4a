--------------------------- MODULE AssocScanTrace ---------------------------
(* Trace specification for the scan: one event per call. *)
EXTENDS TraceBase
Init == s \in 1..Len(Sessions) /\ l = 1
vars == <<s, l>>

\* Values are sequences of input positions (free monoid).
IsRange(q) == Len(q) >= 1 /\ \A i \in 1..(Len(q) - 1) : q[i] + 1 = q[i + 1]
Range(lo, hi) == [i \in 1..(hi - lo + 1) |-> lo + i - 1]

Scan ==
  /\ Op("scan")
  /\ Judge(
       Chk(Len(Ev.out) = Ev.n, "length",
       Chk(\A c \in 1..Len(Ev.calls) :
              /\ IsRange(Ev.calls[c][1]) /\ IsRange(Ev.calls[c][2])
              /\ Ev.calls[c][1][Len(Ev.calls[c][1])] + 1 = Ev.calls[c][2][1], "combines-adjacent-ranges",
       Chk(\A k \in 1..Ev.n : Ev.out[k] = IF Ev.reverse THEN Range(k, Ev.n) ELSE Range(1, k), "prefixes",
       Chk(Ev.after = [k \in 1..Ev.n |-> <<k>>], "input-unchanged", OK)))))
  /\ Consume

\* A finite monoid given by its table (elements 0..m-1), any elements.
RECURSIVE Fold(_, _, _, _)
Fold(tab, a, i, j) == IF i = j THEN a[i] ELSE tab[Fold(tab, a, i, j - 1) + 1][a[j] + 1]
ScanTable ==
  /\ Op("scan_table")
  /\ Judge(
       Chk(Len(Ev.out) = Len(Ev.a), "length",
       Chk(\A k \in 1..Len(Ev.a) : Ev.out[k] = IF Ev.reverse THEN Fold(Ev.tab, Ev.a, k, Len(Ev.a))
                                               ELSE Fold(Ev.tab, Ev.a, 1, k), "prefixes",
       Chk(Ev.after = Ev.a, "input-unchanged", OK))))
  /\ Consume

\* Matrix products (non-commutative, rounding).
RECURSIVE Prod(_, _, _)
Prod(a, i, j) == IF i = j THEN a[i] ELSE MMul(Prod(a, i, j - 1), a[j])
ScanMat ==
  /\ Op("scan_mat")
  /\ Judge(
       Chk(Len(Ev.out) = Len(Ev.a), "length",
       Chk(\A k \in 1..Len(Ev.a) : MClose(Ev.out[k],
             IF Ev.reverse THEN Prod(Ev.a, k, Len(Ev.a)) ELSE Prod(Ev.a, 1, k), "1e-12", "1e-12"), "prefixes",
       Chk(Ev.after = Ev.a, "input-unchanged", OK))))
  /\ Consume

Next == Scan \/ ScanTable \/ ScanMat
Spec == Init /\ [][Next]_vars
=============================================================================
