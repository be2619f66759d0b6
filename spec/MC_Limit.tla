------------------------------ MODULE MC_Limit -------------------------------
(* Design check of limit setting.  One fit serves the limits of two signals; *)
(* what an implementation keeps between calls is which signal the fit holds  *)
(* and how many decays each of the two spectra has been scaled to.  A limit  *)
(* is a scan, one step per signal scale.  The invariants say that the scan   *)
(* sees the signal it was asked for at the scale it was asked for whatever   *)
(* happened before, that its answer depends on nothing but the question, and *)
(* how answers move with the threshold.  Every behaviour is replayed on the  *)
(* real code.                                                                *)
EXTENDS Limit, TLC, Json
CONSTANTS MaxOps, Thresholds, Zeros, Fits
VARIABLES f, have, holds, dec, scan, said, hist
View == <<f, have, holds, dec, scan, said>>

Ax(kind) == <<[n |-> "energy_" \o kind, lo |-> "1", hi |-> "5", b |-> 4]>>
NoRate == [lo |-> "", hi |-> "", bins |-> 0, prior |-> "", sigma |-> ""]
Rate(lo, hi, b, p, s) == [lo |-> lo, hi |-> hi, bins |-> b, prior |-> p, sigma |-> s]
Src(name, kind, cells, dc, rate) ==
  [name |-> name, axes |-> Ax(kind), cells |-> cells, dec |-> dc, rate |-> rate]
\* an excess in the second bin, so the lowest statistic is not at no signal
D1 == Src("data_reco", "reco", <<"5", "15", "6", "4">>, "30", NoRate)
D2 == Src("data_reco", "reco", <<"4", "7", "6", "3">>, "20", NoRate)
X1 == Src("fixed_reco", "reco", <<"5", "7", "6", "4">>, "22", NoRate)
B1 == Src("b1_mc", "mc", <<"5", "6", "6", "5">>, "22", Rate("11", "33", 3, "22", "4"))
A == Src("A_mc", "mc", <<"0", "6", "2", "0">>, "16", Rate("0", "32", 3, "5", "none"))
B == Src("B_mc", "mc", <<"0", "0", "3", "3">>, "6", Rate("3", "21", 4, "5", "none"))
Sig(k) == IF k = 0 THEN A ELSE B
SpOf(s) == [axes |-> s.axes, data |-> s.cells, dec |-> s.dec, raw |-> 0, rois |-> <<>>]
JRate(r) == IF r.bins = 0 THEN <<>> ELSE <<r>>
J(s) == [name |-> s.name, axes |-> s.axes, cells |-> s.cells, dec |-> s.dec,
         rates |-> JRate(s.rate)]
Values(r) == [i \in 1..r.bins |->
  RNorm(RAdd(r.lo, RMul(i - 1, RDiv(RSub(r.hi, r.lo), r.bins - 1))))]
TheRoi == <<[d |-> "energy", lo |-> "1", hi |-> "5"]>>
RSpec(s) == [n |-> s.name \o "_rate", kind |-> "rate", dim |-> "", prior |-> s.rate.prior,
             sigma |-> s.rate.sigma, g |-> FALSE]
FitOf(d, x, fl, st) ==
  [roi |-> TheRoi, data |-> <<SpOf(d)>>,
   fixed |-> [i \in 1..Len(x) |-> ScaleTo(SpOf(x[i]), "22")], signal |-> <<>>,
   floats |-> [i \in 1..Len(fl) |-> [sp |-> SpOf(fl[i]), rate |-> fl[i].name \o "_rate"]],
   pars |-> [i \in 1..Len(fl) |-> RSpec(fl[i])],
   pb |-> FALSE, spb |-> FALSE, mpb |-> FALSE, stat |-> st, min |-> TRUE, one |-> FALSE]
CreateOp(d, x, fl, st) ==
  [op |-> "create", roi |-> TheRoi, pb |-> FALSE, stat |-> st, one |-> FALSE,
   globals |-> <<>>, datas |-> <<J(d)>>,
   fixed |-> [i \in 1..Len(x) |-> [sp |-> J(x[i]), c |-> "22"]],
   floats |-> [i \in 1..Len(fl) |-> J(fl[i])]]
FitSet == {<<D1, <<X1>>, <<>>, "chi">>, <<D2, <<>>, <<B1>>, "chi">>}
FitSetT == {<<d, x[1], x[2], s>> : d \in {D1, D2}, s \in {"chi", "ll"},
            x \in {<< <<X1>>, <<>> >>, << <<>>, <<B1>> >>, << <<X1>>, <<B1>> >>}}
ThrSet == {"1", "2.71", "100"}
ThrSetT == {"-1/2", "0", "1/2", "1", "2.71", "100"}
ZeroSet == {"none", "0"}
ZeroSetT == {"none", "0", "9/4", "fit"}

Pts(g) == IF Len(g.floats) = 0 THEN <<<<>>>>
          ELSE [i \in 1..B1.rate.bins |-> <<Values(B1.rate)[i]>>]
Scales(k) == Values(Sig(k).rate)
\* the number that stands for the statistic without signal
ZeroNo(g, z) == IF z # "fit" THEN z
  ELSE LET pts == Pts(g)
           h == WithSignal(g, SpOf(A)) IN
       FitAt(h, pts, PointBases(h, pts), "0").raw
\* the answer: 0 for "no limit", else the index of the scale
ScanOf(g, k, z) == Scan(WithSignal(g, SpOf(Sig(k))), Pts(g), Scales(k), ZeroNo(g, z))
Answer(g, k, thr, z) ==
  LET x == ScanOf(g, k, z) IN Answers(x.stat, x.full, thr)

Idle == [k |-> -1, i |-> 0, thr |-> "0", zero |-> "none", used |-> <<>>]
Init == \E c \in Fits :
  /\ f = FitOf(c[1], c[2], c[3], c[4])
  /\ have = {} /\ holds = -1 /\ dec = <<A.dec, B.dec>>
  /\ scan = Idle /\ said = {}
  /\ hist = <<CreateOp(c[1], c[2], c[3], c[4])>>
Note(o) == hist' = Append(hist, o)

Make(k) ==
  /\ scan.k = -1 /\ k \notin have
  /\ have' = have \cup {k} /\ holds' = k
  /\ UNCHANGED <<f, dec, scan, said>>
  /\ Note([op |-> "limit", k |-> k, sp |-> J(Sig(k))])
Ask(k, thr, z) ==
  /\ scan.k = -1 /\ k \in have
  /\ scan' = [k |-> k, i |-> 1, thr |-> thr, zero |-> z, used |-> <<>>]
  \* the statistic without signal takes the signal out of the fit
  /\ holds' = IF z \in {"none", "fit"} THEN -1 ELSE holds
  /\ UNCHANGED <<f, have, dec, said>>
  /\ Note([op |-> "get_limit", k |-> k, thr |-> thr, zero |-> z, store |-> FALSE,
           fits |-> FALSE, spectra |-> FALSE, fname |-> ""])
Step ==
  /\ scan.k >= 0 /\ scan.i <= Len(Scales(scan.k))
  /\ LET c == Scales(scan.k)[scan.i] IN
     /\ IF IsZero(c) THEN holds' = -1 /\ UNCHANGED dec
        ELSE holds' = scan.k /\ dec' = [dec EXCEPT ![scan.k + 1] = c]
     /\ scan' = [scan EXCEPT !.i = @ + 1,
                   !.used = Append(@, <<holds', IF holds' = -1 THEN "0" ELSE dec'[holds' + 1]>>)]
  /\ UNCHANGED <<f, have, said, hist>>
Finish ==
  /\ scan.k >= 0 /\ scan.i > Len(Scales(scan.k))
  /\ said' = said \cup {<<scan.k, scan.thr, scan.zero, scan.used>>}
  /\ scan' = Idle
  /\ UNCHANGED <<f, have, holds, dec, hist>>
Take == /\ scan.k = -1 /\ holds >= 0 /\ holds' = -1
        /\ UNCHANGED <<f, have, dec, scan, said>> /\ Note([op |-> "remove_signal", k |-> 0])
RunFit == /\ scan.k = -1 /\ have # {} /\ hist[Len(hist)].op # "fit"
          /\ UNCHANGED <<f, have, holds, dec, scan, said>> /\ Note([op |-> "fit", k |-> 0])
Next == \/ /\ Len(hist) <= MaxOps
           /\ \/ \E k \in {0, 1} : Make(k)
              \/ \E k \in {0, 1}, t \in Thresholds, z \in Zeros : Ask(k, t, z)
              \/ Take \/ RunFit
        \/ Step \/ Finish
NextE == Next /\ ((hist' # hist /\ hist'[Len(hist')].op = "get_limit") => PrintT(ToJson(hist')))
-----------------------------------------------------------------------------
\* each scale was evaluated with the signal asked for, scaled as asked
Faithful == \A s \in said : \A i \in 1..Len(Scales(s[1])) :
  LET c == Scales(s[1])[i] IN
  s[4][i] = IF IsZero(c) THEN <<-1, "0">> ELSE <<s[1], c>>
\* so one question has one answer
OneAnswer == \A s, t \in said : (s[1] = t[1] /\ s[3] = t[3]) => s[4] = t[4]
\* the answer is the first scale from the lowest statistic on above threshold
Decided == scan.k >= 0 /\ scan.i = 1
Found ==
  Decided =>
    LET x == ScanOf(f, scan.k, scan.zero) IN
    x.ok => \A n \in Answers(x.stat, x.full, scan.thr) :
      IF n = 0 THEN \E l \in Lowest(x.stat) \cup Lowest(x.full) :
                      \A i \in l..Len(x.full) : RLe(x.full[i], scan.thr)
      ELSE /\ RLt(scan.thr, x.full[n])
           /\ \E l \in Lowest(x.stat) \cup Lowest(x.full) :
                n >= l /\ \A i \in l..(n - 1) : RLe(x.full[i], scan.thr)
\* a higher threshold never gives a lower limit, and finds one less often
Monotone ==
  Decided =>
    LET x == ScanOf(f, scan.k, scan.zero) IN
    x.ok => \A k \in Lowest(x.stat) : \A t \in Thresholds :
      RLt(scan.thr, t) =>
        LET a == FirstOver(x.full, k, scan.thr) b == FirstOver(x.full, k, t) IN
        (b > 0) => (a > 0 /\ a <= b)
\* statistics counted from another zero move together
Offset ==
  Decided =>
    LET x == ScanOf(f, scan.k, "none") y == ScanOf(f, scan.k, "0") IN
    (x.ok /\ y.ok) => \A i \in 2..Len(x.stat) :
      RClose(RSub(x.stat[i], x.stat[1]), RSub(y.stat[i], y.stat[1]), "1e-9", "1e-9")
=============================================================================
