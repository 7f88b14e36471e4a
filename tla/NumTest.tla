------------------------------ MODULE NumTest ------------------------------
EXTENDS Mat, TLC
S == {"0", "1", "-3/2", "7/5", "0x1.8p+1", "-0x1.999999999999ap-4", "2", "-5", "1e-3"}
ASSUME \A x \in S, y \in S : REq(RAdd(x, y), RAdd(y, x)) /\ REq(RMul(x, y), RMul(y, x))
ASSUME \A x \in S, y \in S, z \in S :
   /\ REq(RMul(x, RAdd(y, z)), RAdd(RMul(x, y), RMul(x, z)))
   /\ RAdd(x, RAdd(y, z)) = RAdd(RAdd(x, y), z)
   /\ RMul(x, RMul(y, z)) = RMul(RMul(x, y), z)
ASSUME \A x \in S : RSub(x, x) = R0 /\ (~REq(x, R0) => RMul(x, RDiv(1, x)) = R1)
ASSUME R("0x1.8p+1") = "3" /\ R("1.5") = "3/2" /\ R("6/4") = "3/2" /\ R(-7) = "-7" /\ R("0x0.0p+0") = "0"
ASSUME RAdd("1", "nan") = "nan" /\ ~RLe("nan", "1") /\ ~RLe("1", "nan") /\ RLt("1", "inf") /\ RSub("inf", "inf") = "nan"
E40 == "1e-40"
ASSUME RClose(RExp(RLn("7/3")), "7/3", E40, 0)
ASSUME \A x \in {"1/3", "-20", "9/4", "100", "-1/7"} : RClose(RAdd(RSq(RSin(x)), RSq(RCos(x))), 1, E40, 0)
ASSUME RClose(RSin("1/2"), "0.4794255386042030002732879352155713880818033679406006751886166131", E40, 0)
ASSUME RClose(RCos("-3"), "-0.98999249660044545727157279473126130239367909661558832881408593292", E40, 0)
ASSUME RClose(RExp("-3/2"), "0.22313016014842982893328047076401252134217162936107932700540654661", E40, 0)
ASSUME RClose(RSq(RSqrt("2/3")), "2/3", E40, 0) /\ RSqrt("9/4") = "3/2"
ASSUME RFloor("-3/2") = -2 /\ RFloor("7/2") = 3
A1 == <<<<"1/2", 2, -1>>, <<"0", "3/7", 4>>>>
B1 == <<<<"1", 5>>, <<"-2", "1/9">>, <<"3", 3>>>>
DotD(x, y) == RSum([i \in 1..Len(x) |-> RMul(x[i], y[i])])
MMulD(A, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(B) |-> DotD(A[i], [k \in 1..Rows(B) |-> B[k][j]])]]
ASSUME MMul(A1, B1) = MMulD(A1, B1)
C1 == <<<<"2", 1>>, <<"1/3", 5>>>>
ASSUME MMul(C1, MSolve(C1, MId(2))) = MId(2)
ASSUME MSolve(<<<<1, 2>>, <<2, 4>>>>, MId(2)) = <<>>
ASSUME MVec(C1, MSolveV(C1, <<"1", "7">>)) = <<"1", "7">>
ASSUME MT(MT(C1)) = MScale(1, C1)
ASSUME MClose(C1, C1, 0, 0) /\ ~MClose(C1, MScale("1.01", C1), 0, "1e-3") /\ ~MClose(C1, A1, 1000, 0)
ASSUME ~VClose(<<"nan">>, <<"nan">>, 1, 1) /\ ~VClose("x", <<"1">>, 1, 1) /\ VClose(<<1, 2>>, <<"1", "2">>, 0, 0)
ASSUME MQuad(<<1, 2>>, C1, <<3, 4>>) = DotD(<<1, 2>>, MVec(C1, <<3, 4>>))
ASSUME PrintT("NUMTEST-OK")
=============================================================================
