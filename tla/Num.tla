-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* The real numbers the specifications compute with.                       *)
(*                                                                         *)
(* TLC has 32-bit integers only, so the numbers of a trace (IEEE doubles,  *)
(* which are exact dyadic rationals) and everything computed from them are *)
(* carried as strings "n" or "n/d" in lowest terms and evaluated by        *)
(* java/Num.java (BigInteger).  Arithmetic is exact while numerator and    *)
(* denominator stay below 2400 bits together; beyond that a result is      *)
(* rounded to 800 significant bits.  RLn, RExp, RSin, RCos and RSqrt are  *)
(* computed to more than 2^-200.  "inf", "-inf" and "nan" are the IEEE     *)
(* specials; any comparison with "nan" is FALSE.  Hexadecimal floats       *)
(* ("0x1.8p+1", as Python's float.hex() writes them), decimal literals and *)
(* TLA+ integers are accepted wherever a number is expected.               *)
(*                                                                         *)
(* The definitions below say what each operator means; NumTest.tla checks  *)
(* the Java implementation against field axioms and identities.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences

LOCAL Java == CHOOSE x : x \notin {TRUE, FALSE}   \* replaced by java/Num.java

R(x) == Java            \* canonical form of x
RIsNum(x) == Java       \* x denotes a number (possibly inf or nan)
RFinite(x) == Java      \* x denotes a finite number
RAdd(x, y) == Java
RSub(x, y) == Java
RMul(x, y) == Java
RDiv(x, y) == Java
RNeg(x) == Java
RAbs(x) == Java
RMax(x, y) == Java
RMin(x, y) == Java
RLe(x, y) == Java
RLt(x, y) == Java
REq(x, y) == Java
RClose(x, y, atol, rtol) == RLe(RAbs(RSub(x, y)), RAdd(atol, RMul(rtol, RMax(RAbs(x), RAbs(y)))))
RLn(x) == Java
RExp(x) == Java
RSin(x) == Java
RCos(x) == Java
RSqrt(x) == Java
RRnd(x, bits) == Java   \* nearest number with that many significant bits
RFloor(x) == Java       \* greatest TLA+ integer not above x
RApprox(x) == Java      \* short decimal, for messages

R0 == "0"
R1 == "1"
RHalf == "1/2"
RSq(x) == RMul(x, x)
RGt(x, y) == RLt(y, x)
RGe(x, y) == RLe(y, x)

RECURSIVE RSumTo(_, _)
RSumTo(f, n) == IF n = 0 THEN R0 ELSE RAdd(RSumTo(f, n - 1), f[n])
RSum(seq) == RSumTo(seq, Len(seq))
RECURSIVE RMinTo(_, _)
RMinTo(f, n) == IF n = 1 THEN R(f[1]) ELSE RMin(f[n], RMinTo(f, n - 1))
RMinOf(seq) == RMinTo(seq, Len(seq))       \* of a non-empty sequence
RECURSIVE RMaxTo(_, _)
RMaxTo(f, n) == IF n = 1 THEN R(f[1]) ELSE RMax(f[n], RMaxTo(f, n - 1))
RMaxOf(seq) == RMaxTo(seq, Len(seq))

\* The same value; the Java implementation evaluates it at once.  (TLC keeps
\* [x \in S |-> e] unevaluated and evaluates e at each application, which is
\* exponential in recursions over functions.)
Eager(x) == x
=============================================================================
