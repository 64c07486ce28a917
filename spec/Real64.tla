------------------------------- MODULE Real64 -------------------------------
(* Double-precision reals for TLC: a real is the pair <<hi, lo>> of the two 32-bit halves of its IEEE-754
   representation, so it can be fingerprinted, compared for equality bit by bit and read from a JSON trace.
   The operators are evaluated by the Java class tlc2.module.Real64 (spec/java). *)
EXTENDS Integers, Sequences
RInt(a) == CHOOSE r : TRUE
RLit(a) == CHOOSE r : TRUE
RStr(a) == CHOOSE r : TRUE
RAdd(a, b) == CHOOSE r : TRUE
RSub(a, b) == CHOOSE r : TRUE
RMul(a, b) == CHOOSE r : TRUE
RDiv(a, b) == CHOOSE r : TRUE
RPow(a, b) == CHOOSE r : TRUE
RSqrt(a) == CHOOSE r : TRUE
RSin(a) == CHOOSE r : TRUE
RCos(a) == CHOOSE r : TRUE
RExp(a) == CHOOSE r : TRUE
RLog(a) == CHOOSE r : TRUE
RAtan2(a, b) == CHOOSE r : TRUE
RAbs(a) == CHOOSE r : TRUE
RNeg(a) == CHOOSE r : TRUE
RMax(a, b) == CHOOSE r : TRUE
RMin(a, b) == CHOOSE r : TRUE
RLt(a, b) == CHOOSE r : TRUE
RLe(a, b) == CHOOSE r : TRUE
RFinite(a) == CHOOSE r : TRUE
RFloor(a) == CHOOSE r : TRUE
RToF32(a) == CHOOSE r : TRUE
RNear(a, b, t) == CHOOSE r : TRUE
RSum(s) == CHOOSE r : TRUE
RMaxAbs(s) == CHOOSE r : TRUE
RAllNear(a, b, t) == CHOOSE r : TRUE
RFirstFar(a, b, t) == CHOOSE r : TRUE
RMaxDiff(a, b) == CHOOSE r : TRUE
RFile(p) == CHOOSE r : TRUE
IFile(p) == CHOOSE r : TRUE
RRint(a) == CHOOSE r : TRUE
RIsInt(a) == CHOOSE r : TRUE
RDFT(c, n, m, s) == CHOOSE r : TRUE
RSumBy(i, v, n) == CHOOSE r : TRUE
RCumSum(s) == CHOOSE r : TRUE
RMaxOf(s) == CHOOSE r : TRUE
RMinOf(s) == CHOOSE r : TRUE
a (+) b == RAdd(a, b)
a (-) b == RSub(a, b)
a (.) b == RMul(a, b)
a (/) b == RDiv(a, b)
=============================================================================
