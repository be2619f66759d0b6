---------------------------- MODULE Trace_Scripts ----------------------------
(* Judges recorded runs of the command line scripts.                         *)
EXTENDS Scripts, Trace_Convolve
Obs(f) == [path |-> f.path, sp |-> [axes |-> f.sp.axes, shape |-> f.sp.shape, data |-> f.sp.data, dec |-> f.sp.dec,
                                    raw |-> f.sp.raw, rois |-> f.sp.rois]]
EdgeTol(s, k) == RAdd(RMul("1e-9", RAdd(RAbs(s.axes[k].lo), RAbs(s.axes[k].hi))), "1e-300")
AxesOk(o, s) ==
  /\ Len(o.axes) = Len(s.axes)
  /\ \A k \in 1..Len(s.axes) :
       /\ o.axes[k].n = s.axes[k].n /\ o.axes[k].b = s.axes[k].b
       /\ RClose(o.axes[k].lo, s.axes[k].lo, "0", EdgeTol(s, k))
       /\ RClose(o.axes[k].hi, s.axes[k].hi, "0", EdgeTol(s, k))
Diffs(o, s) ==
  IF ~AxesOk(o, s) THEN {"axes"}
  ELSE IF Len(o.data) # Len(s.data) THEN {"shape"}
  ELSE (IF RCloseSeq(o.data, s.data, "1e-9", RAdd("1e-300", RMul("1e-13", AbsSum(s.data)))) THEN {} ELSE {"data"})
       \cup (IF RClose(o.dec, s.dec, "1e-9", "0") THEN {} ELSE {"decays"})
       \cup (IF o.raw = s.raw THEN {} ELSE {"raw_events"})
Pick(fs, p) == fs[CHOOSE i \in 1..Len(fs) : fs[i].path = p]
\* how the written spectrum o differs from what is asked
Wrong(ev, fs, o) ==
  LET a == ev.a
      s == At(fs, a.ins[1])
      how == CASE ev.script = "dump_scaled" -> "scale" [] ev.script = "dump_shifted" -> "shift"
               [] ev.script \in {"dump_smeared", "dump_smeared_energy"} -> "smear" [] OTHER -> "exact" IN
  IF how = "exact" THEN Diffs(o, Result(fs, ev))
  ELSE IF how = "smear" THEN
    LET ks == Smears(ev, s) IN
    IF ks = <<>> THEN Diffs(o, s)
    ELSE IF ~NonNegative(s) \/ a.method = "random" THEN {}
    ELSE IF Len(ks) = 1
    THEN BadConv([binned |-> FALSE, how |-> how, v |-> "0", k |-> 3, axis |-> s.axes[ks[1]].n, ok |-> TRUE,
                  sp |-> s, res |-> o, sm |-> SmearOf(ev, s, ks[1])], s)
    ELSE Kept([how |-> how], s, o) \cup
         IF \E i \in 1..Len(ks) : SmearVague(ev, s, ks[i]) THEN {}
         ELSE IF o.axes = s.axes /\ Close(o.data, Result(fs, ev).data, "1e-7") THEN {} ELSE {"data"}
  ELSE BadConv([binned |-> FALSE, how |-> how, v |-> a.val, k |-> 3, axis |-> a.par, ok |-> TRUE,
                sp |-> s, res |-> o, sm |-> [kind |-> "none"]], s)
Bad26(ev) ==
  IF ev.op = "crash" THEN {"*.crash"}
  ELSE IF ev.op # "run" THEN {}
  ELSE LET fs == [i \in 1..Len(ev.before) |-> Obs(ev.before[i])]
           cs == Subs([script |-> ev.script, a |-> ev.a])
           vs == RForce([i \in 1..Len(cs) |-> Verdict(fs, cs[i])])
           ps == RForce([i \in 1..Len(cs) |-> IF cs[i].a.ins = <<>> THEN "" ELSE OutPath(cs[i])])
           may == {i \in 1..Len(cs) : \A j \in 1..i : vs[j] # "no"}
           must == {i \in 1..Len(cs) : \A j \in 1..i : vs[j] = "yes"}
           places == {ps[i] : i \in may}
           kept == \A i \in 1..Len(ev.before) :
                     \/ ev.before[i].path \in places
                     \/ Has(ev.after, ev.before[i].path) /\ Pick(ev.after, ev.before[i].path) = ev.before[i]
           new == {ev.after[i].path : i \in 1..Len(ev.after)} \ {ev.before[i].path : i \in 1..Len(ev.before)}
           tag == SCat("C26.", ev.script)
       IN (IF ev.escaped = <<>> THEN {} ELSE {SCat(tag, "_outside")})
          \cup (IF kept THEN {} ELSE {SCat(tag, "_changes_input")})
          \cup (IF new \subseteq places THEN {}
                ELSE {SCat(tag, IF may = {} THEN "_writes_anyway" ELSE "_other_file")})
          \cup UNION {IF ~Has(ev.after, ps[i]) THEN {SCat(tag, "_writes_nothing")}
                      ELSE IF Pick(ev.after, ps[i]).sum # "" THEN {SCat(tag, "_unreadable")}
                      ELSE {SCat(tag, SCat("_wrong_", w)) : w \in Wrong(cs[i], fs, Pick(ev.after, ps[i]).sp)}
                      : i \in must}
SNext ==
  /\ l <= Len(Trace)
  /\ \A c \in Bad26(Trace[l]) : PrintT(<<"BAD", l, c>>)
  /\ cur' = cur /\ l' = l + 1
=============================================================================
