-------------------------------- MODULE Poly --------------------------------
(* Polynomials in z: sequences of terms [c |-> coefficient, e |-> exponents]. *)
EXTENDS Mat

RECURSIVE RPow(_, _)
RPow(x, k) == IF k = 0 THEN R1 ELSE RMul(x, RPow(x, k - 1))
RECURSIVE Mono(_, _, _)
Mono(e, z, j) == IF j = 0 THEN R1 ELSE RMul(Mono(e, z, j - 1), RPow(z[j], e[j]))
PolyAt(ts, z) == RSum(Eager([i \in 1..Len(ts) |-> RMul(ts[i].c, Mono(ts[i].e, z, Len(z)))]))
\* d/dz_j of a term is a term again.
DTerm(t, j) == IF t.e[j] = 0 THEN [c |-> R0, e |-> t.e] ELSE [c |-> RMul(t.c, t.e[j]), e |-> [t.e EXCEPT ![j] = t.e[j] - 1]]
DPoly(ts, j) == Eager([i \in 1..Len(ts) |-> DTerm(ts[i], j)])
DPolyAt(ts, z, j) == PolyAt(DPoly(ts, j), z)
PGrad(ts, z) == Eager([j \in 1..Len(z) |-> DPolyAt(ts, z, j)])
PHess(ts, z) == Eager([i \in 1..Len(z) |-> [j \in 1..Len(z) |-> PolyAt(DPoly(DPoly(ts, i), j), z)]])
=============================================================================
