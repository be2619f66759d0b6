------------------------------- MODULE Stats --------------------------------
(* The test statistics of echidna/fit/test_statistic.py, bin by bin.         *)
EXTENDS RealK, Sequences, Integers

Kinds == {"baker_cousins", "baker_cousins_up", "baker_cousins_ll",
          "neyman", "pearson", "extended_ll"}
ChiLike == Kinds \ {"extended_ll"}

Eps == "1e-34"                      \* "in the limit of zero"
Floor(x) == IF RLt(x, Eps) THEN Eps ELSE x

\* exp - obs + obs ln(obs/exp), with the empty-bin conventions
LLBin(o, e) ==
  LET f == Floor(e) IN
  IF RLt(o, Eps) THEN f
  ELSE RAdd(RSub(f, o), RMul(o, RLn(RDiv(o, f))))

Bin(kind, o, e) ==
  CASE kind = "baker_cousins"    -> RMul(2, LLBin(o, e))
    [] kind = "baker_cousins_up" -> IF RLt(e, o) THEN "0" ELSE RMul(2, LLBin(o, e))
    [] kind = "baker_cousins_ll" -> LLBin(o, e)
    [] kind = "neyman" ->
         LET f == Floor(o) IN
         IF RLt(e, Eps) THEN f
         ELSE RDiv(RMul(RSub(e, f), RSub(e, f)), f)
    [] kind = "pearson" ->
         LET f == Floor(e) IN
         IF RLt(o, Eps) THEN f
         ELSE RDiv(RMul(RSub(o, f), RSub(o, f)), f)
    [] kind = "extended_ll" ->
         LET f == Floor(e) IN RSub(f, RMul(o, RLn(f)))
    [] OTHER -> "nan"

PerBin(kind, obs, exp) == [i \in 1..Len(obs) |-> Bin(kind, obs[i], exp[i])]
Total(kind, obs, exp) == RSum(PerBin(kind, obs, exp))

\* ((value - prior)/sigma)^2; the log-likelihood form documents a factor 1/2
PenaltyFactor(kind) == IF kind = "baker_cousins_ll" THEN "1/2" ELSE "1"
Penalty(kind, v, prior, sigma) ==
  LET d == RDiv(RSub(v, prior), sigma) IN RMul(PenaltyFactor(kind), RMul(d, d))

\* numerical noise allowed to the double-precision implementation
Noise(obs, exp) == RMul("1e-11", RAdd("1", RMul(100, RAdd(RSum(obs), RSum(exp)))))

=============================================================================
