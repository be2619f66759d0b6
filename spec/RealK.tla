------------------------------- MODULE RealK -------------------------------
(* Real numbers as numeric strings ("3", "-7/4", "0.1", "inf", "nan").       *)
(* TLC replaces every operator below by the exact-rational Java              *)
(* implementation in java/RealK.java (TLC's own integers are 32-bit).  The   *)
(* definitions here only fix arity; the meaning is the ordinary one.         *)
(* Operands may also be TLC integers.                                        *)
LOCAL Any == CHOOSE x : TRUE
RAdd(a, b) == Any
RSub(a, b) == Any
RMul(a, b) == Any
RDiv(a, b) == Any          \* x/0 is inf, -inf or nan, as in IEEE arithmetic
RNeg(a) == Any
RAbs(a) == Any
RLt(a, b) == Any
RLe(a, b) == Any
REq(a, b) == Any
RNorm(a) == Any            \* canonical form
RIsNan(a) == Any
RIsFinite(a) == Any
RClose(a, b, rel, abs) == Any   \* |a-b| <= rel*max(|a|,|b|)+abs
RSum(s) == Any             \* sum of a sequence
RDot(s, u) == Any
RScaleSeq(k, s) == Any
RAddSeq(s, u) == Any
RCloseSeq(s, u, rel, abs) == Any
RFloor(a) == Any           \* an integer
RCeil(a) == Any
RLn(a) == Any
RExp(a) == Any
RSqrt(a) == Any
RPow(a, b) == Any
RSpline(xs, ys, k, ps) == Any  \* interpolating spline of degree k at ps
RLnFact(n) == Any          \* ln(n!)
RForce(s) == Any           \* the sequence, every element evaluated
RRound(s) == Any           \* the sequence, every element to 16 significant digits
SCat(a, b) == Any          \* text: concatenation, containment, ...
SContains(a, b) == Any
SEndsWith(a, b) == Any
SStartsWith(a, b) == Any
SSplit(a, sep) == Any
SLen(a) == Any
SSub(a, i, j) == Any       \* characters i..j-1, from 0
=============================================================================
