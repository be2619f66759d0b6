----------------------------- MODULE Trace_Limit -----------------------------
(* Judges recorded limits.                                                   *)
EXTENDS Limit, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VT_TRACE)
VARIABLES l, fit

Finite(d) == \A i \in 1..Len(d) : RIsFinite(d[i])
SaneSp(o) ==
  /\ o.shape = [k \in 1..Len(o.axes) |-> o.axes[k].b]
  /\ Len(o.data) = Prod(o.shape) /\ Finite(o.data) /\ RIsFinite(o.dec)
  /\ \A k \in 1..Len(o.axes) : RIsFinite(o.axes[k].lo) /\ RLt(o.axes[k].lo, o.axes[k].hi)
Spectra(f) == {f.data[i] : i \in 1..Len(f.data)} \cup {f.fixed[i] : i \in 1..Len(f.fixed)}
  \cup {f.signal[i] : i \in 1..Len(f.signal)} \cup {f.floats[i].sp : i \in 1..Len(f.floats)}
Sane(f) == f.alive /\ \A s \in Spectra(f) : SaneSp(s)
CloseData(d, e) ==
  RCloseSeq(d, e, "1e-9", RAdd("1e-300", RMul("1e-9", RSum([i \in 1..Len(e) |-> RAbs(e[i])]))))
SameAxes(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) :
  /\ x[k].n = y[k].n /\ x[k].b = y[k].b
  /\ RClose(x[k].lo, y[k].lo, "1e-9", "1e-9") /\ RClose(x[k].hi, y[k].hi, "1e-9", "1e-9")
SameSp(o, s) == SameAxes(o.axes, s.axes) /\ CloseData(o.data, s.data) /\ RClose(o.dec, s.dec, "1e-9", "0")
SameOpt(o, s) == Len(o) = Len(s) /\ \A i \in 1..Len(o) : SameSp(o[i], s[i])
Kept(f, g) ==
  /\ SameOpt(g.data, f.data) /\ SameOpt(g.fixed, f.fixed)
  /\ Len(g.floats) = Len(f.floats)
  /\ \A i \in 1..Len(f.floats) : SameSp(g.floats[i].sp, f.floats[i].sp)
  /\ g.roi = f.roi

Near7(a, b) == RClose(a, b, "1e-6", "1e-6")
Seq7(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near7(a[i], b[i])

BadScan(ev, x) ==
  LET n == Len(ev.scales) IN
  (IF Len(ev.stats) = n /\ \A i \in 1..n : Near7(RSum(ev.stats[i]), x.stat[i])
       THEN {} ELSE {"C15.statistics"})
  \cup (IF Len(ev.pens) = n /\ \A i \in 1..n : Near7(RSum(ev.pens[i]), x.fits[i].pen)
        THEN {} ELSE {"C15.penalty_terms"})
  \cup (IF Len(ev.bests) = n /\ \A i \in 1..n :
              \E j \in x.fits[i].same : Seq7(ev.bests[i], IF Len(ev.pts[j]) = 0 THEN <<>> ELSE ev.pts[j])
        THEN {} ELSE {"C15.best_fits"})
\* the fits kept with the limit, and the files asked for
BadFits(fs, ev, x, f) ==
  IF fs = <<>> THEN {}
  ELSE IF Len(fs) = Len(ev.scales) /\ \A i \in 1..Len(fs) :
            IF Len(f.floats) = 0 THEN TRUE
            ELSE /\ fs[i].some
                 /\ Near7(fs[i].low, RAdd(x.fits[i].raw, x.fits[i].pen))
                 /\ Seq7(fs[i].bests, ev.bests[i])
       THEN {} ELSE {"C15.kept_fits"}
SameRows(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Seq7(a[i], b[i])
BadFile(ev, x, f) ==
  LET o == ev.file IN
  IF ~o.asked THEN {}
  ELSE IF ~o.read THEN {"C15.stored_limit_missing"}
  ELSE (IF /\ Seq7(o.scales, ev.scales) /\ SameRows(o.stats, ev.stats)
           /\ SameRows(o.pens, ev.pens) /\ SameRows(o.bests, ev.bests)
        THEN {} ELSE {"C15.stored_limit"})
       \cup (IF BadFits(o.fits, ev, x, f) = {} THEN {} ELSE {"C15.stored_fits"})
BadFiles(ev) ==
  LET o == ev.files IN
  IF ~o.asked THEN {}
  ELSE IF ~o.read THEN {"C15.stored_spectra_missing"}
  ELSE IF /\ SameOpt(o.data, ev.st.data) /\ SameOpt(o.fixed, ev.st.fixed)
          /\ SameOpt(o.floats, [i \in 1..Len(ev.st.floats) |-> ev.st.floats[i].sp])
          /\ SameOpt(o.signal, <<ev.now>>)
       THEN {} ELSE {"C15.stored_spectra"}
\* statistics which are exactly zero, like the threshold, do not exceed it
AllZero(s) == \A j \in 1..Len(s) : REq(s[j], "0")
AtZero(ev, full) ==
  /\ REq(ev.thr, "0") /\ Len(ev.stats) = Len(full) /\ Len(ev.pens) = Len(full)
  /\ \A i \in 1..Len(full) :
       RClose(full[i], "0", "1e-7", "1e-7") => AllZero(ev.stats[i]) /\ AllZero(ev.pens[i])
BadLimit(f0, ev) ==
  LET f == WithSignal(f0, ev.sig)
      x == Scan(f, ev.pts, ev.scales, ev.zero)
      zero == AtZero(ev, x.full)
      full == RForce([i \in 1..Len(x.full) |->
        IF zero /\ RClose(x.full[i], "0", "1e-7", "1e-7") THEN "0" ELSE x.full[i]])
      ans == Answers(x.stat, full, ev.thr)
  IN IF ~Sane(f0) \/ ~SaneSp(ev.sig) \/ Refused(f) \/ Misbinned(f)
        \/ (Len(f.floats) = 0 /\ Len(f.pars) > 0) THEN {}
     ELSE (IF Kept(f0, ev.st) THEN {} ELSE {"C15.limit_changes_fit"}) \cup
     IF ~x.ok THEN {}
     ELSE IF ~ev.ok /\ ev.err # "LimitError" THEN {"C15.failed"}
     ELSE BadScan(ev, x) \cup BadFits(ev.fits, ev, x, f) \cup BadFile(ev, x, f)
       \cup BadFiles(ev) \cup
       IF Near(x.full, ev.thr) /\ ~zero THEN {}
       ELSE IF ev.ok THEN
         (IF \E i \in ans : i > 0 /\ RClose(ev.val, ev.scales[i], "1e-9", "0") THEN {}
          ELSE IF ans = {0} THEN {"C15.number_instead_of_error"} ELSE {"C15.limit"})
       ELSE IF 0 \in ans THEN {} ELSE {"C15.error_instead_of_limit"}
BadArray(ev) ==
  LET s == [i \in 1..Len(ev.arr) |-> RSum(ev.arr[i])]
      i == FirstOver(s, 1, ev.thr) IN
  IF Len(ev.arr) # Len(ev.scales) THEN IF ev.ok THEN {"C15.array_length"} ELSE {}
  ELSE IF \E k \in 1..Len(s) : RClose(s[k], ev.thr, "1e-12", "1e-12") /\ ~ REq(s[k], ev.thr) THEN {}
  ELSE IF i = 0 THEN IF ev.ok THEN {"C15.number_instead_of_error"}
                     ELSE IF ev.err = "LimitError" THEN {} ELSE {"C15.array_failed"}
  ELSE IF ~ev.ok THEN {"C15.error_instead_of_limit"}
  ELSE IF RClose(ev.val, ev.scales[i], "1e-9", "0") THEN {} ELSE {"C15.array_limit"}
BadStats(f0, ev) ==
  LET f == WithSignal(f0, ev.sig)
      x == Scan(f, ev.pts, ev.scales, "0") IN
  IF ~Sane(f0) \/ ~SaneSp(ev.sig) \/ Refused(f) \/ Misbinned(f) \/ Len(f.floats) > 0 \/ f.pb THEN {}
  ELSE IF ~x.ok THEN {}
  ELSE IF ~ev.ok THEN {"C15.failed"}
  ELSE IF Len(ev.stats) = Len(ev.scales) /\
          \A i \in 1..Len(ev.scales) : Near7(RSum(ev.stats[i]), x.stat[i]) THEN {}
       ELSE {"C15.get_statistics"}
\* the signal of a limit is set like any signal of the fit: in its region
BadNew(f, ev) ==
  LET can == CanSet(ev.sig, f.roi, ev.shrink) IN
  IF ~Sane(f) \/ ~SaneSp(ev.sig) THEN {}
  ELSE IF ~ev.ok THEN IF can THEN {"C15.signal_rejected"} ELSE {}
  ELSE IF ~can THEN {"C15.unfitting_signal_accepted"}
  ELSE (IF SameOpt(ev.st.signal, <<AsSet(ev.sig, f.roi, ev.shrink)>>)
        THEN {} ELSE {"C15.signal_not_set"})
       \cup (IF Kept(f, ev.st) THEN {} ELSE {"C15.limit_changes_fit"})
Bad(ev) ==
  CASE ev.op = "crash" -> {"*.crash"}
    [] ev.op = "create" -> {}
    [] ~fit.alive -> {}
    [] ev.op = "limit" -> BadNew(fit, ev)
    [] ev.op = "get_limit" -> BadLimit(fit, ev)
    [] ev.op = "array" -> BadArray(ev)
    [] ev.op = "statistics" -> BadStats(fit, ev)
    [] OTHER -> {}

TInit == l = 1 /\ fit = [alive |-> FALSE]
TNext == /\ l <= Len(Trace)
         /\ \A c \in Bad(Trace[l]) : PrintT(<<"BAD", l, c>>)
         /\ l' = l + 1
         /\ fit' = IF Trace[l].op = "crash" THEN [alive |-> FALSE] ELSE Trace[l].st
=============================================================================
