------------------------------- MODULE MC_Fit -------------------------------
(* Design check of a fit over its life: spectra are set, replaced, cut and   *)
(* removed, the region of interest moves, and points are evaluated in any    *)
(* order.  Beside the fit itself the model carries the two pieces of state   *)
(* an implementation keeps between calls - the convolved spectra remembered  *)
(* per point of the global parameters, and the "already checked" mark - with *)
(* the rules that invalidate them; the invariants say that they never hide   *)
(* a change.  Every behaviour is replayed on the real code.                  *)
EXTENDS Fit, TLC, Json
CONSTANTS MaxOps, Globs, Points
VARIABLES f, cache, checked, hist
View == <<f, cache, checked>>

Ax(kind, be, br) == <<[n |-> "energy_" \o kind, lo |-> "1", hi |-> "5", b |-> be],
                      [n |-> "radial_" \o kind, lo |-> "0", hi |-> "2", b |-> br]>>
NoRate == [lo |-> "", hi |-> "", bins |-> 0, prior |-> "", sigma |-> ""]
Rate(lo, hi, b) == [lo |-> lo, hi |-> hi, bins |-> b, prior |-> "10", sigma |-> "5"]
Src(name, kind, be, br, cells, dec, rate) ==
  [name |-> name, axes |-> Ax(kind, be, br), cells |-> cells, dec |-> dec,
   rate |-> rate]
D1 == Src("data_reco", "reco", 4, 2, <<"3", "1", "4", "1", "5", "9", "2", "6">>, "31", NoRate)
X1 == Src("fixed_reco", "reco", 4, 2, <<"1", "1", "2", "2", "3", "3", "4", "4">>, "20", NoRate)
X2 == Src("more_reco", "reco", 4, 2, <<"8", "0", "0", "4", "0", "0", "2", "2">>, "16", NoRate)
B1 == Src("b1_mc", "mc", 8, 2,
          <<"1", "2", "3", "4", "5", "6", "7", "8", "8", "7", "6", "5", "4", "3", "2", "1">>,
          "72", Rate("0", "40", 2))
B2 == Src("b2_mc", "mc", 4, 4,
          <<"0", "4", "0", "0", "2", "0", "2", "0", "1", "1", "1", "1", "0", "0", "5", "0">>,
          "30", Rate("10", "30", 3))
S1 == Src("s1_mc", "mc", 4, 2, <<"0", "0", "7", "7", "1", "0", "0", "0">>, "15", NoRate)
S2 == Src("s2_mc", "mc", 4, 2, <<"2", "0", "0", "0", "0", "0", "0", "6">>, "8", NoRate)
SpOf(s) == [axes |-> s.axes, data |-> s.cells, dec |-> s.dec, raw |-> 0, rois |-> <<>>]
\* JSON has no record without a rate: the driver takes null
JRate(r) == IF r.bins = 0 THEN <<>> ELSE <<r>>
J(s) == [name |-> s.name, axes |-> s.axes, cells |-> s.cells, dec |-> s.dec,
         rates |-> JRate(s.rate)]

R1 == <<[d |-> "energy", lo |-> "2", hi |-> "5"]>>
R2 == <<[d |-> "energy", lo |-> "2", hi |-> "4"], [d |-> "radial", lo |-> "0", hi |-> "1"]>>
R3 == <<[d |-> "energy", lo |-> "1", hi |-> "5"]>>      \* all of one dimension
Full == <<[d |-> "energy", lo |-> "1", hi |-> "5"], [d |-> "radial", lo |-> "0", hi |-> "2"]>>

\* global parameters of a universe: <<kind, values>>
GPar(k) == CASE k = "shift" -> [kind |-> "shift", dim |-> "energy_mc", lo |-> "-1", hi |-> "1",
                                bins |-> 3, prior |-> "1/2", sigma |-> "3"]
             [] k = "res"   -> [kind |-> "res", dim |-> "energy_mc", lo |-> "1/5", hi |-> "3/10",
                                bins |-> 2, prior |-> "1/4", sigma |-> "none"]
PName(k) == IF k = "res" THEN "energy_mc_resolution" ELSE "energy_mc_shift"
GSpec(k) == LET p == GPar(k) IN
  [n |-> PName(k), kind |-> p.kind, dim |-> p.dim, prior |-> p.prior,
   sigma |-> p.sigma, g |-> TRUE]
RSpec(s) == [n |-> s.name \o "_rate", kind |-> "rate", dim |-> "", prior |-> "10",
             sigma |-> "5", g |-> FALSE]
FloatOf(s, roi) == [sp |-> Confined(SpOf(s), roi), rate |-> s.name \o "_rate"]
GlobSets == {<<>>, <<"shift">>}
GlobSetsT == {<<>>, <<"shift">>, <<"res">>}
\* every value is a grid value: 0 stands for the first one, 1/2 the middle
PointSet == {<<"0", "0", "0">>, <<"2/3", "1/2", "1/2">>}
ValueAt(p, x) ==
  LET lo == IF p.g THEN GPar(IF p.kind = "res" THEN "res" ELSE "shift").lo
            ELSE IF p.n = "b1_mc_rate" THEN "0" ELSE "10"
      hi == IF p.g THEN GPar(IF p.kind = "res" THEN "res" ELSE "shift").hi
            ELSE IF p.n = "b1_mc_rate" THEN "40" ELSE "30"
      b == IF p.g THEN GPar(IF p.kind = "res" THEN "res" ELSE "shift").bins
           ELSE IF p.n = "b1_mc_rate" THEN 2 ELSE 3
      i == RFloor(RMul(x, b))
  IN RAdd(lo, RMul(i, RDiv(RSub(hi, lo), b - 1)))
Vals(pars, pt) == RForce([i \in 1..Len(pars) |-> RNorm(ValueAt(pars[i], pt[i]))])

CreateOp(roi, gs, fl) ==
  [op |-> "create", roi |-> roi, bad |-> "", pb |-> FALSE, stat |-> "chi",
   spb |-> FALSE, min |-> "probe", mpb |-> FALSE, shrink |-> TRUE, one |-> FALSE,
   globals |-> [i \in 1..Len(gs) |-> GPar(gs[i])], fixed |-> <<>>,
   floats |-> [i \in 1..Len(fl) |-> J(fl[i])], datas |-> <<J(D1)>>, signals |-> <<>>]
Init == \E gs \in Globs, roi \in {R1, Full}, fl \in {<<B1>>, <<B1, B2>>} :
  /\ f = [roi |-> roi, data |-> <<Confined(SpOf(D1), roi)>>, fixed |-> <<>>, signal |-> <<>>,
          floats |-> [i \in 1..Len(fl) |-> FloatOf(fl[i], roi)],
          pars |-> [i \in 1..Len(gs) |-> GSpec(gs[i])] \o [i \in 1..Len(fl) |-> RSpec(fl[i])],
          pb |-> FALSE, spb |-> FALSE, mpb |-> FALSE, stat |-> "chi", min |-> TRUE,
          one |-> FALSE]
  /\ cache = {} /\ checked = FALSE
  /\ hist = <<CreateOp(roi, gs, fl)>>
Note(o) == hist' = Append(hist, o)

\* what an implementation does on top of the specified change
Changed(convolved) ==
  /\ checked' = FALSE
  /\ cache' = IF convolved THEN {} ELSE cache
SetSignal(s) ==
  /\ CanConfine(SpOf(s), f.roi)
  /\ f' = [f EXCEPT !.signal = <<Confined(SpOf(s), f.roi)>>]
  /\ Changed(TRUE) /\ Note([op |-> "set_signal", shrink |-> TRUE, sps |-> <<J(s)>>])
RemoveSignal ==
  /\ Len(f.signal) = 1 /\ f' = [f EXCEPT !.signal = <<>>]
  /\ UNCHANGED <<cache, checked>> /\ Note([op |-> "remove_signal"])
SetFixed(s) ==
  /\ CanConfine(SpOf(s), f.roi)
  /\ f' = [f EXCEPT !.fixed = <<Confined(SpOf(s), f.roi)>>]
  /\ Changed(FALSE) /\ Note([op |-> "set_fixed", shrink |-> TRUE, sps |-> <<J(s)>>])
AppendFixed(s) ==
  /\ Len(f.fixed) = 1 /\ CanConfine(SpOf(s), f.roi)
  /\ LET p == FixedPart(SpOf(s), f.roi, TRUE, "12") IN
     /\ AddAccepted(f.fixed[1], p)
     /\ f' = [f EXCEPT !.fixed = <<Add(f.fixed[1], p)>>]
  /\ Changed(FALSE)
  /\ Note([op |-> "append_fixed", shrink |-> TRUE, fixed |-> <<[sp |-> J(s), c |-> "12"]>>])
SetFloats(s) ==
  /\ CanConfine(SpOf(s), f.roi)
  /\ f' = [f EXCEPT !.floats = <<FloatOf(s, f.roi)>>,
                    !.pars = IF Knows(f, s.name \o "_rate") THEN @ ELSE Append(@, RSpec(s))]
  /\ Changed(TRUE)
  /\ Note([op |-> "set_floats", shrink |-> TRUE, floats |-> <<J(s)>>])
SetRoi(r) ==
  /\ f' = [f EXCEPT !.roi = r]
  /\ Changed(FALSE) /\ Note([op |-> "set_roi", roi |-> r, bad |-> ""])
ShrinkAll ==
  LET all == f.data \o f.fixed \o f.signal \o [i \in 1..Len(f.floats) |-> f.floats[i].sp]
      Cuts(s) == [i \in 1..Len(s) |-> Confined(s[i], f.roi)]
  IN /\ \A i \in 1..Len(all) : CanConfine(all[i], f.roi)
     /\ f' = [f EXCEPT !.data = Cuts(@), !.fixed = Cuts(@), !.signal = Cuts(@),
                       !.floats = [i \in 1..Len(@) |->
                                     [@[i] EXCEPT !.sp = Confined(@, f.roi)]]]
     /\ cache' = {} /\ UNCHANGED checked
     /\ Note([op |-> "shrink_all"])
SetData ==
  /\ CanConfine(SpOf(D1), f.roi)
  /\ f' = [f EXCEPT !.data = <<Confined(SpOf(D1), f.roi)>>]
  /\ Changed(FALSE) /\ Note([op |-> "set_data", shrink |-> TRUE, sps |-> <<J(D1)>>])
\* a run looks every convolved spectrum up before convolving it
Key(vals) == [i \in 1..Len(Globals(f)) |-> vals[Globals(f)[i]]]
Convolved(k) == LET sp == IF k = 0 THEN f.signal[1] ELSE f.floats[k].sp IN sp
Slots == (IF Len(f.signal) = 1 THEN {0} ELSE {}) \cup 1..Len(f.floats)
Run(pt) ==
  LET refuse == ~checked /\ Refused(f) IN
  /\ UNCHANGED f
  /\ checked' = (checked \/ ~refuse)
  /\ cache' = IF refuse \/ Len(Globals(f)) = 0 THEN cache
              ELSE LET k == Key(Vals(f.pars, pt)) IN
                   cache \cup {[slot |-> s, key |-> k, of |-> Convolved(s)] : s \in
                               {x \in Slots : ~\E c \in cache : c.slot = x /\ c.key = k}}
  /\ Note([op |-> "run", points |-> <<pt>>])
Next == /\ Len(hist) <= MaxOps
        /\ \/ \E s \in {S1, S2} : SetSignal(s)
           \/ RemoveSignal \/ SetFixed(X1) \/ AppendFixed(X2) \/ SetData \/ ShrinkAll
           \/ \E s \in {B1, B2} : SetFloats(s)
           \/ \E r \in {R1, R2, R3} : SetRoi(r)
           \/ \E p \in Points : Run(p)
NextE == Next /\ (hist'[Len(hist')].op = "run" => PrintT(ToJson(hist')))
-----------------------------------------------------------------------------
\* nothing remembered is out of date, and no fit runs that must be refused
\* (a removed signal may leave an entry nobody looks up)
FreshCache == \A c \in cache : c.slot \in Slots => c.of = Convolved(c.slot)
CheckedHolds == checked => ~Refused(f)
\* the expectation is the sum of its parts
Pts == {Vals(f.pars, p) : p \in Points}
Runs == ~Refused(f) /\ ~Misbinned(f)
\* - the signal adds to the rest, doubled rates double the floating
\* backgrounds, nothing is negative, and what a floating background adds
\* never exceeds its rate
Holds(v) ==
  LET base == BaseAt(f, v)
      x == ExpectedFrom(f, base, v)
      bare == [f EXCEPT !.signal = <<>>]
      y == ExpectedAt(bare, v)
      w == [i \in 1..Len(v) |-> IF f.pars[i].g THEN v[i] ELSE RMul("2", v[i])]
      only == [base EXCEPT !.rest = <<>>]
      z == ExpectedFrom(f, only, v)
  IN x[1] =>
     /\ Len(x[2]) = Len(Observed(f)) /\ \A i \in 1..Len(x[2]) : RLe("0", x[2][i])
     /\ y[1] /\ RCloseSeq(x[2],
          IF Len(f.signal) = 0 THEN y[2] ELSE RAddSeq(y[2], SignalAt(f, v)[2]), "1e-9", "1e-12")
     /\ RCloseSeq(RScaleSeq("2", z[2]), ExpectedFrom(f, only, w)[2], "1e-9", "1e-12")
     /\ \A i \in 1..Len(f.floats) :
          RLe(RSum(Rated(f, v, i, base.floats[i])[2]),
              RAdd(ValOf(f, v, f.floats[i].rate), "1e-9"))
SumOfParts == Runs => \A v \in Pts : Holds(v)
=============================================================================
