------------------------------ MODULE Trace_Fit ------------------------------
(* Judges recorded fits.                                                     *)
EXTENDS Fit, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VT_TRACE)
VARIABLES l, fit            \* fit: the fit as observed after the last call

Finite(d) == \A i \in 1..Len(d) : RIsFinite(d[i])
SaneSp(o) ==
  /\ o.shape = [k \in 1..Len(o.axes) |-> o.axes[k].b]
  /\ Len(o.data) = Prod(o.shape) /\ Finite(o.data) /\ RIsFinite(o.dec)
  /\ \A k \in 1..Len(o.axes) : RIsFinite(o.axes[k].lo) /\ RLt(o.axes[k].lo, o.axes[k].hi)
Spectra(f) == {f.data[i] : i \in 1..Len(f.data)} \cup {f.fixed[i] : i \in 1..Len(f.fixed)}
  \cup {f.signal[i] : i \in 1..Len(f.signal)} \cup {f.floats[i].sp : i \in 1..Len(f.floats)}
Sane(f) == f.alive /\ \A s \in Spectra(f) : SaneSp(s)

Abs(d) == RSum([i \in 1..Len(d) |-> RAbs(d[i])])
CloseData(d, e) == RCloseSeq(d, e, "0", RAdd("1e-300", RMul("1e-9", Abs(e))))
SameAxes(x, y) ==
  /\ Len(x) = Len(y)
  /\ \A k \in 1..Len(x) :
       /\ Dim(x[k].n) = Dim(y[k].n) /\ x[k].b = y[k].b
       /\ RClose(x[k].lo, y[k].lo, "1e-9", "1e-9") /\ RClose(x[k].hi, y[k].hi, "1e-9", "1e-9")
\* the observed spectrum is the specified one
Same(o, s) == SameAxes(o.axes, s.axes) /\ CloseData(o.data, s.data) /\ RClose(o.dec, s.dec, "1e-9", "1e-300")
SameOpt(o, s) == Len(o) = Len(s) /\ \A i \in 1..Len(o) : Same(o[i], s[i])
SameFloats(o, s) == Len(o) = Len(s) /\ \A i \in 1..Len(o) : Same(o[i].sp, s[i])
FloatSps(f) == [i \in 1..Len(f.floats) |-> f.floats[i].sp]

\* everything but the named part is as it was
Others(f, g, except) ==
  /\ "data" \in except \/ SameOpt(g.data, f.data)
  /\ "fixed" \in except \/ SameOpt(g.fixed, f.fixed)
  /\ "signal" \in except \/ SameOpt(g.signal, f.signal)
  /\ "floats" \in except \/ SameFloats(g.floats, FloatSps(f))
  /\ "roi" \in except \/ g.roi = f.roi
  /\ "floats" \in except \/ "pars" \in except \/ g.pars = f.pars
Unchanged(f, g) == Others(f, g, {})

\* one spectrum set as data, signal or fixed background
BadSet(f, ev, part) ==
  LET sp == ev.sps[1] g == ev.st can == CanSet(sp, f.roi, ev.shrink) IN
  IF ~ev.ok THEN
     (IF can THEN {"C14.set_rejected"} ELSE {})
     \cup (IF Unchanged(f, g) THEN {} ELSE {"C14.rejected_set_changes_fit"})
  ELSE IF ~can THEN {"C14.unfitting_spectrum_accepted"}
  ELSE (IF SameOpt(CASE part = "data" -> g.data [] part = "signal" -> g.signal
                     [] part = "fixed" -> g.fixed,
                   <<AsSet(sp, f.roi, ev.shrink)>>)
        THEN {} ELSE {"C14.region_of_interest"})
       \cup (IF Others(f, g, {part}) THEN {} ELSE {"C14.set_changes_others"})

FParts(f, ev) == [i \in 1..Len(ev.sps) |->
  FixedPart(ev.sps[i], f.roi, ev.shrink, ev.cs[i])]
Originals(ev) == IF ev.sps2 = ev.sps THEN {} ELSE {"C14.original_background_changed"}
BadMakeFixed(f, ev) ==
  LET g == ev.st
      conf == \A i \in 1..Len(ev.sps) :
                IF ev.shrink THEN CanConfine(ev.sps[i], f.roi) ELSE HasDims(ev.sps[i], f.roi)
      p == FParts(f, ev)
      can == conf /\ CanSum(p) /\ (ev.shrink \/ Matches(p[1], f.roi))
  IN Originals(ev) \cup
     IF ~ev.ok THEN
        (IF can THEN {"C14.set_rejected"} ELSE {})
        \cup (IF Unchanged(f, g) THEN {} ELSE {"C14.rejected_set_changes_fit"})
     ELSE IF ~can THEN IF conf /\ ~SumDefined(p) THEN {} ELSE {"C14.unfitting_spectrum_accepted"}
     ELSE (IF SameOpt(g.fixed, <<FixedSum(p, Len(p))>>) THEN {} ELSE {"C13+C14.fixed_background"})
          \cup (IF Others(f, g, {"fixed"}) THEN {} ELSE {"C14.set_changes_others"})
BadAppend(f, ev) ==
  LET g == ev.st
      conf == \A i \in 1..Len(ev.sps) : ev.shrink => CanConfine(ev.sps[i], f.roi)
      p == f.fixed \o FParts(f, ev)
      can == Len(f.fixed) = 1 /\ conf /\ CanSum(p)
  IN Originals(ev) \cup
     IF ~ev.ok THEN
        (IF can THEN {"C14.set_rejected"} ELSE {})
        \cup (IF Others(f, g, {"fixed"}) /\ (Len(ev.sps) > 1 \/ Unchanged(f, g)) THEN {}
              ELSE {"C14.rejected_set_changes_fit"})
     ELSE IF ~can THEN IF Len(f.fixed) = 1 /\ conf /\ ~SumDefined(p) THEN {}
                       ELSE {"C14.unfitting_spectrum_accepted"}
     ELSE (IF SameOpt(g.fixed, <<FixedSum(p, Len(p))>>) THEN {} ELSE {"C13+C14.fixed_background"})
          \cup (IF Others(f, g, {"fixed"}) THEN {} ELSE {"C14.set_changes_others"})
BadFloats(f, ev) ==
  LET g == ev.st
      can == \A i \in 1..Len(ev.sps) : CanSet(ev.sps[i], f.roi, ev.shrink)
  IN IF ~ev.ok THEN
        (IF can THEN {"C14.set_rejected"} ELSE {})
        \cup (IF Others(f, g, {"floats"}) THEN {} ELSE {"C14.rejected_set_changes_fit"})
     ELSE IF ~can THEN {"C14.unfitting_spectrum_accepted"}
     ELSE (IF SameFloats(g.floats, [i \in 1..Len(ev.sps) |->
                                      AsSet(ev.sps[i], f.roi, ev.shrink)])
           THEN {} ELSE {"C14.region_of_interest"})
          \cup (IF Others(f, g, {"floats"}) THEN {} ELSE {"C14.set_changes_others"})

\* a fit made at once is a fit made step by step
BadCreate(ev) ==
  LET g == ev.st
      roi == RoiOf(ev.asked)
      n == ev.nums                 \* data, fixed, floats, signal
      sub(a, b) == SubSeq(ev.sps, a + 1, a + b)
      data == sub(0, n[1]) fx == sub(n[1], n[2])
      fl == sub(n[1] + n[2], n[3]) sg == sub(n[1] + n[2] + n[3], n[4])
      conf == \A i \in 1..Len(ev.sps) : CanConfine(ev.sps[i], roi)
      all(s) == [i \in 1..Len(s) |-> Confined(s[i], roi)]
      p == [i \in 1..Len(fx) |-> FixedPart(fx[i], roi, TRUE, ev.cs[i])]
      can == ev.good /\ conf /\ (Len(fx) > 0 => CanSum(p))
      matched == \A i \in 1..Len(ev.sps) : Matches(Confined(ev.sps[i], roi), roi)
      fx2 == SubSeq(ev.sps2, n[1] + 1, n[1] + n[2])
  IN (IF fx2 = fx THEN {} ELSE {"C14.original_background_changed"}) \cup
     IF ~ev.ok THEN IF can /\ matched THEN {"C14.fit_rejected"} ELSE {}
     ELSE IF ~can THEN IF ev.good /\ conf /\ ~SumDefined(p) THEN {} ELSE {"C14.unfitting_fit_accepted"}
     ELSE (IF SameOpt(g.data, all(data)) /\ SameOpt(g.signal, all(sg)) /\ SameFloats(g.floats, all(fl))
              /\ Len(g.roi) = Len(roi)
              /\ \A i \in 1..Len(roi) : \E j \in 1..Len(roi) :
                    g.roi[j].d = roi[i].d /\ REq(g.roi[j].lo, roi[i].lo) /\ REq(g.roi[j].hi, roi[i].hi)
           THEN {} ELSE {"C14.region_of_interest"})
          \cup (IF SameOpt(g.fixed, IF Len(fx) = 0 THEN <<>> ELSE <<FixedSum(p, Len(p))>>)
                THEN {} ELSE {"C13+C14.fixed_background"})

BadRoi(f, ev) ==
  LET roi == RoiOf(ev.asked) g == ev.st IN
  IF ~ev.good THEN IF ev.ok THEN {"C14.invalid_region_accepted"} ELSE {}
  ELSE IF ~ev.ok THEN {"C14.region_rejected"}
  ELSE (IF Len(g.roi) = Len(roi) /\
           \A i \in 1..Len(roi) : \E j \in 1..Len(roi) :
              g.roi[j].d = roi[i].d /\ REq(g.roi[j].lo, roi[i].lo) /\ REq(g.roi[j].hi, roi[i].hi)
        THEN {} ELSE {"C14.region_of_interest"})
       \cup (IF Others(f, g, {"roi"}) THEN {} ELSE {"C14.set_changes_others"})

\* everything cut to the present region at once
BadShrinkAll(f, ev) ==
  LET g == ev.st
      AllCut(s) == [i \in 1..Len(s) |-> Confined(s[i], f.roi)]
      all == f.data \o f.fixed \o f.signal \o FloatSps(f)
      can == \A i \in 1..Len(all) : CanConfine(all[i], f.roi)
  IN IF ~ev.ok THEN IF can THEN {"C14.shrink_all_rejected"} ELSE {}
     ELSE IF ~can THEN {"C14.unfitting_spectrum_accepted"}
     ELSE IF /\ SameOpt(g.data, AllCut(f.data)) /\ SameOpt(g.fixed, AllCut(f.fixed))
             /\ SameOpt(g.signal, AllCut(f.signal)) /\ SameFloats(g.floats, AllCut(FloatSps(f)))
             /\ g.roi = f.roi /\ g.pars = f.pars
          THEN {} ELSE {"C14.region_of_interest"}
\* other parameters for the fit
BadConfig(f, ev) ==
  LET g == ev.st IN
  IF ~ev.ok THEN (IF ev.good THEN {"C14.set_rejected"} ELSE {})
                 \cup (IF Unchanged(f, g) THEN {} ELSE {"C14.rejected_set_changes_fit"})
  ELSE IF ~ev.good THEN {"C14.invalid_config_accepted"}
  ELSE (IF g.pars = ev.asked THEN {} ELSE {"C14.parameters"})
       \cup (IF Others(f, g, {"pars"}) THEN {} ELSE {"C14.set_changes_others"})

BadMinimiser(f, ev) ==
  IF Complete(f) /\ AllMatch(f) THEN IF ev.ok THEN {} ELSE {"C14.minimiser_rejected"}
  ELSE IF ev.ok THEN {"C14.minimiser_of_unfitting_fit"} ELSE {}

\* running the fit
SameVals(a, b) == \A i \in 1..Len(a) : REq(a[i], b[i])
BadPoint(f, e, x) ==
  LET tol == RMul(IF UsesSpline(f, e.vals) THEN "2e-3" ELSE "1e-7", RAdd(Abs(x), "1e-290"))
  IN (IF SameVals(e.cur, e.vals) THEN {} ELSE {"C13.current_values"})
     \cup (IF Finite(e.exp) THEN {} ELSE {"C13.not_a_number"})
     \cup (IF Finite(e.exp) => RCloseSeq(e.exp, x, "0", tol) THEN {} ELSE {"C13.expected"})
BadAlways(f, e) ==
  (IF CloseData(e.obs, Observed(f)) THEN {} ELSE {"C13.observed"})
  \cup (IF e.pen = "none" \/ RClose(e.pen, Penalty(f, e.vals), "1e-9", "1e-12") THEN {} ELSE {"C13.penalty"})
  \cup (IF e.ret = e.stat THEN {} ELSE {"C13.statistic"})
Agree(a, b) ==
  RCloseSeq(a.exp, b.exp, "1e-9", "1e-12") /\ RCloseSeq(a.stat, b.stat, "1e-9", "1e-12") /\
  (a.pen = b.pen \/ RClose(a.pen, b.pen, "1e-12", "0"))
BadRepeat(evs) ==
  IF \A i \in 1..Len(evs) : \A j \in 1..Len(evs) :
       i < j /\ SameVals(evs[i].vals, evs[j].vals) => Agree(evs[i], evs[j])
  THEN {} ELSE {"C13.same_point_other_result"}
\* a grid search evaluates every point of the grid once and returns its minimum
TotalOf(e) == RAdd(RSum(e.stat), e.pen)
BadGrid(f, ev) ==
  LET e == ev.evs IN
  (IF Len(e) = ev.points /\
      \A i \in 1..Len(e) : \A j \in 1..Len(e) : i < j => ~SameVals(e[i].vals, e[j].vals)
   THEN {} ELSE {"C13+C11.grid_points"})
  \cup (IF Len(e) = 0 \/ ~\A i \in 1..Len(e) : Finite(e[i].stat) THEN {}
        ELSE IF \E i \in 1..Len(e) :
                /\ \A j \in 1..Len(e) : RLe(TotalOf(e[i]), RAdd(TotalOf(e[j]), "1e-9"))
                /\ SameVals(ev.best, e[i].vals)
                /\ RClose(RSum(ev.ret), RAdd(RSum(e[i].stat), e[i].pen), "1e-9", "1e-9")
             THEN {} ELSE {"C13+C11.minimum"})
BadRun(f, ev) ==
  LET g == ev.st IN
  (IF Unchanged(f, g) THEN {} ELSE {"C13+C14.fit_changes_spectra"}) \cup
  IF Refused(f) THEN IF ev.ok THEN {"C14.not_refused"} ELSE {}
  ELSE IF Misbinned(f) THEN
       IF ev.ok THEN {"C14.binning_not_refused"} ELSE {}
  ELSE IF ~ev.ok THEN
          \* a grid may fail on results of a form it cannot store
          IF ~(ev.how = "grid" /\ (f.spb # f.pb \/ f.mpb # f.pb)) /\
             \* (per-bin fits of a part of the axes are left open)
             ~(f.pb /\ Len(RoiDims(f.data[1], f.roi)) < Len(f.data[1].axes)) /\
             LET x == ExpectedAll(f, ev.asked2) IN
             \A i \in 1..Len(x) : x[i][1]
          THEN {"C13.failed"} ELSE {}
       ELSE (LET x == ExpectedAll(f, [i \in 1..Len(ev.evs) |-> ev.evs[i].vals]) IN
             UNION {IF x[i][1] THEN BadPoint(f, ev.evs[i], x[i][2]) ELSE {}
                     : i \in 1..Len(ev.evs)})
            \cup UNION {BadAlways(f, ev.evs[i]) : i \in 1..Len(ev.evs)}
            \cup BadRepeat(ev.evs)
            \cup (IF ev.how = "grid" THEN BadGrid(f, ev) ELSE
                  IF ev.how = "fixed" /\ ~(Len(ev.evs) = 1 /\ ev.evs[1].stat = ev.ret)
                  THEN {"C13.statistic"} ELSE
                  IF ev.how = "probe" /\ Len(ev.evs) # Len(ev.asked2) THEN {"C13.points"} ELSE {})

BadCheck(f, ev) ==
  IF Refused(f) THEN IF ev.ok THEN {"C14.not_refused"} ELSE {}
  ELSE IF ev.ok THEN {} ELSE {"C14.fit_rejected"}

Bad(ev) ==
  CASE ev.op = "crash" -> {"*.crash"}
    [] ev.op = "create" -> BadCreate(ev)
    [] ~Sane(fit) -> {}
    [] ev.op = "set_data" -> BadSet(fit, ev, "data")
    [] ev.op = "set_signal" -> BadSet(fit, ev, "signal")
    [] ev.op = "set_fixed" -> BadSet(fit, ev, "fixed")
    [] ev.op = "make_fixed" -> BadMakeFixed(fit, ev)
    [] ev.op = "append_fixed" -> BadAppend(fit, ev)
    [] ev.op = "set_floats" -> BadFloats(fit, ev)
    [] ev.op = "remove_signal" ->
         IF ev.ok /\ Len(ev.st.signal) = 0 /\ Others(fit, ev.st, {"signal"}) THEN {}
         ELSE {"C14.remove_signal"}
    [] ev.op = "set_roi" -> BadRoi(fit, ev)
    [] ev.op = "shrink_all" -> BadShrinkAll(fit, ev)
    [] ev.op = "set_config" -> BadConfig(fit, ev)
    [] ev.op = "set_minimiser" -> BadMinimiser(fit, ev)
    [] ev.op = "set_stat" -> IF ev.ok /\ Unchanged(fit, ev.st) THEN {} ELSE {"C14.set_changes_others"}
    [] ev.op = "check" -> BadCheck(fit, ev)
    [] ev.op = "run" -> BadRun(fit, ev)
    [] OTHER -> {"*.crash"}

TInit == l = 1 /\ fit = [alive |-> FALSE]
TNext == /\ l <= Len(Trace)
         /\ \A c \in Bad(Trace[l]) : PrintT(<<"BAD", l, c>>)
         /\ l' = l + 1
         /\ fit' = IF Trace[l].op = "crash" THEN [alive |-> FALSE] ELSE Trace[l].st
=============================================================================
