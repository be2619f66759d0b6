---------------------------- MODULE MC_Convolve ----------------------------
(* Exhaustive design check of Convolve.tla on a small two-dimensional        *)
(* spectrum: whole-bin shifts lose exactly what leaves the range, smearing   *)
(* loses nothing, acts on one axis only and is linear.                       *)
EXTENDS Convolve, TLC, Json
CONSTANTS MaxOps, Shifts, Smears
VARIABLES sp, start, gone, hist
View == <<sp, gone>>
A1 == [n |-> "energy_mc", lo |-> "1/2", hi |-> "9/2", b |-> 4]
A2 == [n |-> "x_mc", lo |-> "0", hi |-> "2", b |-> 2]
Fresh == NewSpectrum(<<A1, A2>>, "8")
Contents == { <<"8", "0", "0", "0", "0", "0", "0", "0">>,
              <<"1", "2", "3", "4", "0", "6", "7", "8">>,
              <<"0", "0", "0", "5/2", "0", "0", "0", "3">> }
\* [op |-> "new"] line of the driver
NewOp(d) == [op |-> "new", k |-> 0, dec |-> "8", raw |-> 0, cells |-> d,
             axes |-> <<[n |-> "energy_mc", lo |-> "1/2", hi |-> "9/2", b |-> 4],
                        [n |-> "x_mc", lo |-> "0", hi |-> "2", b |-> 2]>>]
SmearSet == {[kind |-> "ly", res |-> "4", poisson |-> FALSE, ns |-> "2"],
             [kind |-> "ly", res |-> "10", poisson |-> TRUE, ns |-> "3"],
             [kind |-> "res", res |-> "2/5", poisson |-> FALSE, ns |-> "5"],
             [kind |-> "rad", res |-> "1/5", poisson |-> FALSE, ns |-> "2"]}
ShiftSet == {<<"energy_mc", 1>>, <<"energy_mc", -2>>, <<"energy_mc", 4>>,
             <<"x_mc", 1>>, <<"x_mc", -1>>}
Init == \E d \in Contents :
          /\ sp = [Fresh EXCEPT !.data = d] /\ start = d /\ gone = "0"
          /\ hist = <<NewOp(d)>>
Note(o) == hist' = Append(hist, o)
DoShift(n, k) ==
  LET r == ShiftBins(sp, AxisNo(sp, n), k) IN
  /\ sp' = r
  /\ gone' = RAdd(gone, RSub(Total(sp), Total(r)))
  /\ Note([op |-> "conv", how |-> "shift", axis |-> n, v |-> "0", bins |-> k,
           k |-> 1, take |-> TRUE])
DoSmear(s) ==
  /\ ~ReachUnclear(s, A1)
  /\ sp' = Smeared(sp, 1, s)
  /\ UNCHANGED gone
  /\ Note([op |-> "conv", how |-> "smear", axis |-> "energy_mc", v |-> "0",
           k |-> 1, sm |-> s, take |-> TRUE])
DoMove(how, v) ==
  /\ ~Unclear(A1, how, v) /\ RLt("0", Total(sp))
  /\ LET r == Moved(sp, 1, how, v, 1) IN
     /\ sp' = r
     /\ gone' = RAdd(gone, RSub(Total(sp), Total(r)))
  /\ Note([op |-> "conv", how |-> how, axis |-> "energy_mc", v |-> v, k |-> 1,
           take |-> TRUE])
Next == /\ Len(hist) <= MaxOps
        /\ UNCHANGED start
        /\ \/ \E x \in Shifts : DoShift(x[1], x[2])
           \/ \E s \in Smears : DoSmear(s)
           \/ DoMove("scale", "5/4") \/ DoMove("shift", "3/10")
NextE == Next /\ PrintT(ToJson(hist'))
-----------------------------------------------------------------------------
Accounted == RClose(RAdd(Total(sp), gone), RSum(start), "1e-9", "0")
NonNeg == \A c \in 1..Len(sp.data) : RLe("0", sp.data[c])
\* shifting there and back keeps what stayed in range
Back == \A k \in 1..3 :
  LET r == ShiftBins(ShiftBins(sp, 1, k), 1, -k) IN
  r = WithRows(sp, 1, [i \in 1..4 |-> IF i + k > 4 THEN ZeroRow(sp, 1) ELSE Row(sp, 1, i - 1)])
Compose == ShiftBins(ShiftBins(sp, 1, 1), 1, 1) = ShiftBins(sp, 1, 2)
SmearKeeps == \A s \in Smears :
  LET r == Smeared(sp, 1, s) IN
  /\ RClose(Total(r), Total(sp), "1e-12", "0")
  /\ RCloseSeq(OthersOf(r, 1), OthersOf(sp, 1), "1e-12", "1e-12")
SmearLinear == \A s \in Smears :
  LET other == [sp EXCEPT !.data = RScaleSeq("3", ShiftBins(sp, 1, 1).data)]
      both == [sp EXCEPT !.data = RAddSeq(@, other.data)]
  IN RCloseSeq(Smeared(both, 1, s).data,
               RAddSeq(Smeared(sp, 1, s).data, Smeared(other, 1, s).data),
               "1e-12", "1e-12")
\* moving by the spline agrees with moving whole bins where nothing is lost
=============================================================================
