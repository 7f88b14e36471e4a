-------------------------------- MODULE Mat --------------------------------
(***************************************************************************)
(* Vectors (sequences of Num values) and matrices (sequences of rows).     *)
(* The definitions are the meaning; java/Mat.java evaluates them faster.   *)
(* MatTest.tla compares the two.                                           *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences

Rows(A) == Len(A)
Cols(A) == Len(A[1])

VDot(x, y) == RSum([i \in 1..Len(x) |-> RMul(x[i], y[i])])
MT(A) == [j \in 1..Cols(A) |-> [i \in 1..Rows(A) |-> A[i][j]]]
MMul(A, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(B) |-> VDot(A[i], [k \in 1..Rows(B) |-> B[k][j]])]]
MVec(A, x) == [i \in 1..Rows(A) |-> VDot(A[i], x)]
MAdd(A, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> RAdd(A[i][j], B[i][j])]]
MSub(A, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> RSub(A[i][j], B[i][j])]]
MScale(s, A) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> RMul(s, A[i][j])]]
VAdd(x, y) == [i \in 1..Len(x) |-> RAdd(x[i], y[i])]
VSub(x, y) == [i \in 1..Len(x) |-> RSub(x[i], y[i])]
VScale(s, x) == [i \in 1..Len(x) |-> RMul(s, x[i])]
MQuad(x, A, y) == VDot(x, MVec(A, y))

\* The unique X with A X = B; <<>> when A is not invertible.
MSolve(A, B) == CHOOSE X \in {<<>>} : TRUE
MSolveV(A, b) == CHOOSE X \in {<<>>} : TRUE

VMaxAbs(x) == LET RECURSIVE m(_)
                  m(n) == IF n = 0 THEN R0 ELSE RMax(m(n - 1), RAbs(x[n]))
              IN  m(Len(x))
MMaxAbs(A) == VMaxAbs([i \in 1..Len(A) |-> VMaxAbs(A[i])])
IsVec(x, n) == Len(x) = n /\ \A i \in 1..n : RIsNum(x[i])
IsMat(A, m, n) == Len(A) = m /\ \A i \in 1..m : IsVec(A[i], n)

\* Same shape, finite, and every entry within atol + rtol * (largest entry).
VClose(x, y, atol, rtol) ==
  /\ Len(x) = Len(y)
  /\ \A i \in 1..Len(x) : RFinite(x[i]) /\ RFinite(y[i])
  /\ LET tol == RAdd(atol, RMul(rtol, RMax(VMaxAbs(x), VMaxAbs(y))))
     IN  \A i \in 1..Len(x) : RLe(RAbs(RSub(x[i], y[i])), tol)
MClose(A, B, atol, rtol) ==
  /\ Len(A) = Len(B)
  /\ \A i \in 1..Len(A) : Len(A[i]) = Len(B[i])
  /\ \A i \in 1..Len(A) : \A j \in 1..Len(A[i]) : RFinite(A[i][j]) /\ RFinite(B[i][j])
  /\ LET tol == RAdd(atol, RMul(rtol, RMax(MMaxAbs(A), MMaxAbs(B))))
     IN  \A i \in 1..Len(A) : \A j \in 1..Len(A[i]) : RLe(RAbs(RSub(A[i][j], B[i][j])), tol)

\* ---- defined here only ----
MId(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN R1 ELSE R0]]
MZero(m, n) == [i \in 1..m |-> [j \in 1..n |-> R0]]
VZero(n) == [i \in 1..n |-> R0]
MNeg(A) == MScale("-1", A)
VNeg(x) == VScale("-1", x)
MSym(A) == MScale(RHalf, MAdd(A, MT(A)))
HCat(A, B) == [i \in 1..Len(A) |-> A[i] \o B[i]]
VCat(A, B) == A \o B
Col(x) == [i \in 1..Len(x) |-> <<x[i]>>]
MEq(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : Len(A[i]) = Len(B[i]) /\ \A j \in 1..Len(A[i]) : REq(A[i][j], B[i][j])
VEq(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : REq(x[i], y[i])
VSum3(x, y, z) == VAdd(VAdd(x, y), z)
MSum3(A, B, C) == MAdd(MAdd(A, B), C)
MMul3(A, B, C) == MMul(A, MMul(B, C))
=============================================================================
