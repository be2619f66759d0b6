------------------------------ MODULE TestStat ------------------------------
(* Test statistics of echidna/fit/test_statistic.py.                         *)
(* State: the comparison being built up bin by bin (observed, expected) for  *)
(* a statistic of some kind; actions append a bin.  Property C10.            *)
EXTENDS Stats

-----------------------------------------------------------------------------
(* Design model: build up a comparison over a small set of counts.           *)
CONSTANTS Counts, MaxBins
VARIABLES obs, exp

MInit == obs = <<>> /\ exp = <<>>
AppendBin(o, e) == obs' = Append(obs, o) /\ exp' = Append(exp, e)
MNext == Len(obs) < MaxBins /\ \E o \in Counts, e \in Counts : AppendBin(o, e)

Tiny(x) == RLe(RAbs(x), "1e-11")
NonNegative == \A k \in ChiLike : RLe("-1e-11", Total(k, obs, exp))
ZeroAtEquality == \A k \in ChiLike : Tiny(Total(k, obs, obs))
OnlyAtEquality ==      \* the two-sided chi-squareds separate different data
  (\E i \in 1..Len(obs) : ~REq(obs[i], exp[i])) =>
     \A k \in {"baker_cousins", "pearson", "neyman"} : ~Tiny(Total(k, obs, exp))
UpIsOneSided ==
  RLe(Total("baker_cousins_up", obs, exp),
      RAdd(Total("baker_cousins", obs, exp), "1e-11"))
ChiIsTwiceLL ==
  RClose(Total("baker_cousins", obs, exp),
         RMul(2, Total("baker_cousins_ll", obs, exp)), "1e-12", "1e-12")
Additive ==            \* splitting the bins in two comparisons adds up
  \A k \in Kinds, c \in 0..Len(obs) :
     RClose(Total(k, obs, exp),
            RAdd(Total(k, SubSeq(obs, 1, c), SubSeq(exp, 1, c)),
                 Total(k, SubSeq(obs, c+1, Len(obs)), SubSeq(exp, c+1, Len(exp)))),
            "1e-12", "1e-12")
PenaltyShape ==
  \A k \in Kinds, v \in Counts, p \in Counts :
     LET t == Penalty(k, v, p, "2") IN
     /\ RLe("0", t)
     /\ REq(t, "0") <=> REq(v, p)
     /\ REq(t, Penalty(k, p, v, "2"))
=============================================================================
