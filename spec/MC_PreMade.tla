----------------------------- MODULE MC_PreMade ------------------------------
(* Design check of the names: parameters are applied to a name in any order, *)
(* again and again, as fits with several global parameters do.  The name     *)
(* always says which systematics were applied to which dimension, and at     *)
(* which value.  Behaviours are replayed on the real code.                   *)
EXTENDS PreMade, TLC, Json
CONSTANTS MaxOps, Dims, Starts, Values
VARIABLES start, name, done, hist
View == <<start, name, done>>
W(t, e) == [t |-> t, ext |-> e]
S1 == [dirs |-> <<"data">>, toks |-> <<W("Te130", ""), W("others", "")>>]
S2 == [dirs |-> <<"my_energy">>, toks |-> <<W("misc", ""), W("2015", "")>>]
StartSet == {S1, S2}
ValueSet == [smear |-> {"200", "20"}, scale |-> {"1", "10"}, shift |-> {"0"}]
ValueSetT == [smear |-> {"200", "20", "0.5"}, scale |-> {"1", "10"}, shift |-> {"0", "10"}]

Init == \E s \in Starts : start = s /\ name = s /\ done = <<>> /\ hist = <<>>
Settle(ps, p) ==
  LET at == {i \in 1..Len(ps) : ps[i].dim = p.dim /\ ps[i].kind = p.kind} IN
  IF at = {} THEN Append(ps, p) ELSE [ps EXCEPT ![CHOOSE i \in at : TRUE] = p]
Next == \E d \in Dims, k \in Systs : \E v \in Values[k] :
  LET p == [dim |-> d, kind |-> k, val |-> v] IN
  /\ Len(hist) < MaxOps
  /\ name' = Apply(name, p)
  /\ done' = Settle(done, p)
  /\ hist' = Append(hist, p)
  /\ UNCHANGED start
NextE == Next /\ (Len(hist') = MaxOps =>
            PrintT(ToJson(<<[op |-> "new"], [op |-> "names", start |-> start, slash |-> TRUE,
                                             pars |-> hist']>>)))
-----------------------------------------------------------------------------
\* the name says exactly what was applied
Tells == Says(name, Len(start.dirs)) =
         {<<done[i].dim, done[i].kind, Word(done[i]).t>> : i \in 1..Len(done)}
\* so it does not depend on what was asked for before
Again == SameName(name, ApplyAll(start, done))
\* and putting in the values again changes nothing
Stable == SameName(name, ApplyAll(name, done))
\* the name of the unconvolved spectrum stays in front
Keeps == SubSeq(name.dirs, 1, Len(start.dirs)) = start.dirs
         /\ SubSeq(name.toks, 1, Len(start.toks)) = start.toks
\* one word per systematic
Words == Len(name.toks) = Len(start.toks) + Len(done)
=============================================================================
