-------------------------------- MODULE Fit --------------------------------
(* The fit of echidna/fit/fit.py: spectra confined to a region of interest,  *)
(* and the expectation compared with the data at one point of parameter      *)
(* space.  Properties C13, C14.                                              *)
(*                                                                           *)
(* A fit is a record                                                         *)
(*   roi     sequence of [d: dimension, lo, hi]                              *)
(*   data, fixed, signal   <<spectrum>> or <<>>                              *)
(*   floats  sequence of [sp: spectrum, rate: name of its rate parameter or  *)
(*           "" if it has none]                                              *)
(*   pars    sequence of [n, kind, dim, prior, sigma ("none" if absent), g]  *)
(*           in the order of the fit configuration; g: global                *)
(*   pb, spb, mpb   per-bin flags of the fit, statistic and minimiser        *)
(*   stat    "chi" or "ll": the statistic, which fixes the penalty terms     *)
(*   min     a minimiser is set;  one: everything summed into a single bin   *)
EXTENDS Convolve

Order2(lo, hi) == IF RLt(hi, lo) THEN <<hi, lo>> ELSE <<lo, hi>>
\* the region a user asks for; bounds may be given in either order
RoiOf(asked) == [i \in 1..Len(asked) |->
  LET o == Order2(asked[i].lo, asked[i].hi)
  IN [d |-> asked[i].d, lo |-> o[1], hi |-> o[2]]]

HasDims(sp, roi) == \A i \in 1..Len(roi) : roi[i].d \in Dims(sp)
ReqOf(sp, roi) ==
  [i \in 1..(2 * Len(roi)) |->
     LET r == roi[(i + 1) \div 2] IN
     [n |-> AxisOfDim(sp, r.d).n,
      w |-> IF i % 2 = 1 THEN "low" ELSE "high",
      v |-> IF i % 2 = 1 THEN r.lo ELSE r.hi]]
CanConfine(sp, roi) ==
  /\ HasDims(sp, roi)
  /\ ~ShrinkRejected(sp, ReqOf(sp, roi))
  /\ ShrinkDefined(sp, ReqOf(sp, roi))
Confined(sp, roi) == IF Len(roi) = 0 THEN sp ELSE Shrink(sp, ReqOf(sp, roi))
Matches(sp, roi) ==
  /\ HasDims(sp, roi)
  /\ \A i \in 1..Len(roi) :
       LET a == AxisOfDim(sp, roi[i].d) IN
       RClose(a.lo, roi[i].lo, "0", RMul("1e-4", Width(a)))
       /\ RClose(a.hi, roi[i].hi, "0", RMul("1e-4", Width(a)))
\* a spectrum set with (without) shrinking
CanSet(sp, roi, shrink) == IF shrink THEN CanConfine(sp, roi) ELSE Matches(sp, roi)
AsSet(sp, roi, shrink) == IF shrink THEN Confined(sp, roi) ELSE sp

(* Fixed backgrounds: each cut to the region, then scaled to its counts.     *)
FixedPart(sp, roi, shrink, c) ==
  ScaleTo(IF shrink THEN Confined(sp, roi) ELSE sp, c)
RECURSIVE FixedSum(_, _)
FixedSum(parts, i) ==
  IF i = 1 THEN parts[1] ELSE Add(FixedSum(parts, i - 1), parts[i])
CanSum(parts) == \A i \in 2..Len(parts) :
  AddAccepted(parts[1], parts[i]) /\ AddDefined(parts[1], parts[i])
SumDefined(parts) == \A i \in 2..Len(parts) :
  Len(parts[1].axes) = Len(parts[i].axes) /\ SameOrder(parts[1], parts[i])

(* When a fit must refuse to run.                                            *)
Complete(f) == Len(f.data) = 1 /\ (Len(f.fixed) = 1 \/ Len(f.floats) > 0)
AllMatch(f) ==
  \A s \in {f.data, f.fixed, f.signal} : Len(s) = 1 => Matches(s[1], f.roi)
Refused(f) ==
  \/ ~Complete(f)
  \/ ~AllMatch(f)
  \/ Len(f.floats) > 0 /\ Len(f.pars) = 0
  \/ Len(f.floats) = 0 /\ \E i \in 1..Len(f.pars) : ~f.pars[i].g
  \/ ~f.min
  \/ f.pb /\ (~f.mpb \/ ~f.spb)

-----------------------------------------------------------------------------
(* The expectation at a point: vals is a sequence parallel to f.pars.        *)
Globals(f) == SelectSeq([i \in 1..Len(f.pars) |-> i], LAMBDA i : f.pars[i].g)
Smearing(v) == [kind |-> IF RLt("10", v) THEN "ly" ELSE "res", res |-> v,
                poisson |-> TRUE, ns |-> "5"]
Splined(sp, p, v) ==
  p.kind = "scale" \/ (p.kind = "shift" /\ ~Whole(sp, AxisNo(sp, p.dim), v))
ApplyGlobal(sp, p, v) ==
  LET a == AxisNo(sp, p.dim) IN
  IF REq(Total(sp), "0") THEN sp ELSE
  CASE p.kind = "res" -> Smeared(sp, a, Smearing(v))
    [] Splined(sp, p, v) -> Moved(sp, a, p.kind, v, 3)
    [] OTHER -> ShiftBins(sp, a, Nearest(RDiv(v, Width(sp.axes[a]))))
\* what applying it means is specified, up to rounding
GlobalClear(sp, p, v) ==
  /\ p.dim \in AxisNames(sp)
  /\ LET a == AxisNo(sp, p.dim) ax == sp.axes[a] IN
     \/ REq(Total(sp), "0") /\ (p.kind = "res" \/ ax.b > 3)
     \/ /\ RLt("0", Total(sp))
        /\ CASE p.kind = "res" ->
                /\ RLt("0", v) /\ (RLt(v, "1") \/ RLt("10", v))
                /\ RLe("0", ax.lo)
                /\ LET s == Smearing(v) IN
                   ~ReachUnclear(s, ax) /\ ~PhotonsUnclear(s, ax) /\ ~NoResponse(s, ax)
             [] Splined(sp, p, v) ->
                /\ ax.b > 3
                /\ (p.kind = "scale" => RLt("0", v))
                /\ (p.kind = "shift" => ~NearlyWhole(sp, a, v))
                /\ ~Unclear(ax, p.kind, v)
                /\ Substantial(sp, a, p.kind, v, 3)
             [] OTHER -> ax.b > 3 \/ Exact(ax)
\* (rounded: what follows is compared up to rounding)
Forced(sp) == [sp EXCEPT !.data = RRound(@)]
\* <<specified, convolved spectrum>>
RECURSIVE ConvolveAll(_, _, _, _)
ConvolveAll(sp, pars, vals, gs) ==
  IF Len(gs) = 0 THEN <<TRUE, sp>>
  ELSE LET p == pars[gs[1]] v == vals[gs[1]] IN
       IF ~GlobalClear(sp, p, v) THEN <<FALSE, sp>>
       ELSE ConvolveAll(Forced(ApplyGlobal(sp, p, v)), pars, vals, Tail(gs))

DataRange(d) == [k \in 1..Len(d.axes) |->
  [d |-> Dim(d.axes[k].n), lo |-> d.axes[k].lo, hi |-> d.axes[k].hi]]
BinsOf(sp, d) == [k \in 1..Len(sp.axes) |-> AxisOfDim(d, Dim(sp.axes[k].n)).b]
CanReduce(sp, d) ==
  /\ Len(sp.axes) = Len(d.axes) /\ Dims(sp) = Dims(d)
  /\ CanConfine(sp, DataRange(d))
  /\ RebinAccepted(Confined(sp, DataRange(d)), BinsOf(sp, d))
Reduced(sp, d) == Forced(Rebin(Forced(Confined(sp, DataRange(d))), BinsOf(sp, d)))
\* bins are those of the same place, whatever the order of the axes: everything
\* is taken in the order of the data
RoiDims(d, roi) ==
  SelectSeq([i \in 1..Len(d.axes) |-> Dim(d.axes[i].n)],
            LAMBDA x : x \in {roi[j].d : j \in 1..Len(roi)})
RoiShape(sp, d, roi) ==
  LET ds == RoiDims(d, roi) IN [i \in 1..Len(ds) |-> AxisOfDim(sp, ds[i]).b]
OnRoi(sp, d, roi) ==
  LET own == RoiDims(sp, roi) ds == RoiDims(d, roi)
      p == Project(sp, {AxisOfDim(sp, roi[i].d).n : i \in 1..Len(roi)})
      from == RoiShape(sp, sp, roi) to == RoiShape(sp, d, roi)
      at == [i \in 1..Len(own) |-> CHOOSE j \in 1..Len(ds) : ds[j] = own[i]]
  IN IF own = ds THEN p
     ELSE [c \in 1..Len(p) |->
             LET u == Unflat(to, c - 1) IN
             p[Flat(from, [i \in 1..Len(own) |-> u[at[i]]]) + 1]]

ValOf(f, vals, n) == vals[CHOOSE i \in 1..Len(f.pars) : f.pars[i].n = n]
Knows(f, n) == \E j \in 1..Len(f.pars) : f.pars[j].n = n
\* Rate first or last: the convolutions keep the number of decays.  The
\* convolved spectrum at the values gv of the global parameters, on the region
\* of interest: <<specified, projection, decays>>
RatesOk(f, i) ==
  f.floats[i].rate = "" \/ (Knows(f, f.floats[i].rate) /\ RLt("0", f.floats[i].sp.dec))
ConvolvedOn(f, sp, vals) ==
  LET c == ConvolveAll(sp, f.pars, vals, Globals(f)) IN
  IF ~c[1] \/ ~CanReduce(c[2], f.data[1]) THEN <<FALSE, <<>>>>
  ELSE <<TRUE, RRound(OnRoi(Reduced(c[2], f.data[1]), f.data[1], f.roi))>>
FloatBase(f, vals, i) ==
  IF RatesOk(f, i) THEN ConvolvedOn(f, f.floats[i].sp, vals) ELSE <<FALSE, <<>>>>
SignalAt(f, vals) ==
  IF Len(Globals(f)) = 0 \/ Len(f.floats) = 0
  THEN <<TRUE, RRound(OnRoi(f.signal[1], f.data[1], f.roi))>>
  ELSE ConvolvedOn(f, f.signal[1], vals)
\* everything that depends on the global parameters only
BaseAt(f, vals) ==
  [floats |-> RForce([i \in 1..Len(f.floats) |-> FloatBase(f, vals, i)]),
   rest |-> (IF Len(f.fixed) = 1 THEN <<<<TRUE, RForce(OnRoi(f.fixed[1], f.data[1], f.roi))>>>> ELSE <<>>)
            \o (IF Len(f.signal) = 1 THEN <<SignalAt(f, vals)>> ELSE <<>>)]
Rated(f, vals, i, c) ==
  IF f.floats[i].rate = "" \/ ~c[1] THEN c
  ELSE <<TRUE, RScaleSeq(RDiv(ValOf(f, vals, f.floats[i].rate), f.floats[i].sp.dec), c[2])>>
SameGlobals(f, u, v) ==
  Len(f.floats) = 0 \/ \A i \in 1..Len(f.pars) : f.pars[i].g => REq(u[i], v[i])
RECURSIVE SumOf(_, _)
SumOf(parts, i) ==
  IF i = 1 THEN parts[1][2] ELSE RAddSeq(SumOf(parts, i - 1), parts[i][2])
One(f, s) == IF f.one THEN <<RSum(s)>> ELSE s
\* <<every part of the expectation is specified at this point, the expectation>>
ExpectedFrom(f, base, vals) ==
  LET p == RForce([i \in 1..Len(f.floats) |-> Rated(f, vals, i, base.floats[i])]) \o base.rest IN
  IF \A i \in 1..Len(p) : p[i][1] /\ Len(p[i][2]) = Len(p[1][2])
  THEN <<TRUE, One(f, SumOf(p, Len(p)))>>
  ELSE <<FALSE, <<>>>>
ExpectedAt(f, vals) == ExpectedFrom(f, BaseAt(f, vals), vals)
\* the expectations at every point of a sequence
ExpectedAll(f, pts) ==
  LET first == RForce([k \in 1..Len(pts) |->
                 CHOOSE j \in 1..k : /\ SameGlobals(f, pts[j], pts[k])
                                     /\ \A i \in 1..(j - 1) : ~SameGlobals(f, pts[i], pts[k])])
      base == RForce([k \in 1..Len(pts) |->
                 IF first[k] = k THEN BaseAt(f, pts[k]) ELSE <<>>])
  IN RForce([k \in 1..Len(pts) |-> ExpectedFrom(f, base[first[k]], pts[k])])
Observed(f) == One(f, OnRoi(f.data[1], f.data[1], f.roi))

\* binnings that can never be compared bin by bin
Misbinned(f) ==
  LET Of(sp) == RoiShape(sp, f.data[1], f.roi) o == Of(f.data[1]) IN
  \/ Len(f.fixed) = 1 /\ (~f.one \/ Len(f.floats) > 0) /\ Of(f.fixed[1]) # o
  \/ /\ Len(f.signal) = 1 /\ (Len(f.floats) = 0 \/ Len(Globals(f)) = 0)
     /\ Of(f.signal[1]) # (IF Len(f.floats) = 0 THEN Of(f.fixed[1]) ELSE o)
UsesSpline(f, vals) ==
  Len(f.floats) > 0 /\ \E i \in 1..Len(f.pars) : f.pars[i].g /\
    \/ f.pars[i].kind = "scale"
    \/ f.pars[i].kind = "shift" /\
       \E s \in ({f.floats[j].sp : j \in 1..Len(f.floats)} \cup
                 {f.signal[j] : j \in 1..Len(f.signal)}) :
         Splined(s, f.pars[i], vals[i])

Penalty(f, vals) ==
  RSum([i \in 1..Len(f.pars) |->
    IF f.pars[i].sigma = "none" THEN "0"
    ELSE LET z == RDiv(RSub(vals[i], f.pars[i].prior), f.pars[i].sigma)
         IN IF f.stat = "ll" THEN RMul("1/2", RMul(z, z)) ELSE RMul(z, z)])
=============================================================================
