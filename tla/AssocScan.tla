----------------------------- MODULE AssocScan -----------------------------
(***************************************************************************)
(* The simulated parallel associative scan (Blelloch): up pass, down pass, *)
(* extra pass over an array padded to a power of two with None.            *)
(*                                                                         *)
(* A value is the range <<lo, hi>> of input positions it covers (the free  *)
(* monoid up to the only associativity law: adjacent ranges join), None    *)
(* when it is padding, or Bad when two non-adjacent values were combined.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == <<0, 0>>
Bad  == <<-1, -1>>
Join(x, y) == IF x # Bad /\ y # Bad /\ x[2] + 1 = y[1] THEN <<x[1], y[2]>> ELSE Bad

RECURSIVE Log2Ceil(_)
Log2Ceil(n) == IF n <= 1 THEN 0 ELSE 1 + Log2Ceil((n + 1) \div 2)
Pow2(k) == 2^k

\* One iteration of each parallel loop, on the pair (i1, i2) / on cell i.
UpPair(a, i1, i2) ==
  IF a[i2] = None THEN [a EXCEPT ![i2] = a[i1]]
  ELSE IF a[i1] = None THEN a
  ELSE [a EXCEPT ![i2] = Join(a[i1], a[i2])]
DownPair(a, i1, i2) ==
  [a EXCEPT ![i1] = a[i2],
            ![i2] = IF a[i2] = None THEN a[i1] ELSE IF a[i1] = None THEN a[i2] ELSE Join(a[i2], a[i1])]
ExtraCell(a, a0, i) ==
  [a EXCEPT ![i] = IF a[i] = None THEN a0[i] ELSE IF a0[i] = None THEN a[i] ELSE Join(a[i], a0[i])]
=============================================================================
