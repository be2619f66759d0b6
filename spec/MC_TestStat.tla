----------------------------- MODULE MC_TestStat -----------------------------
EXTENDS TestStat, TLC, Json
CountsSmall == {"0", "1/2", "1", "3"}
\* one operation sequence per state: every kind, both forms
Case ==
  <<[op |-> "stat", obs |-> obs, exp |-> exp, dtype |-> "float"]>>
Emit == Len(obs) > 0 => PrintT(ToJson(Case))
NextE == MNext /\ (Len(obs') > 0 => PrintT(ToJson(
   <<[op |-> "stat", obs |-> obs', exp |-> exp', dtype |-> "float"]>>)))
=============================================================================
