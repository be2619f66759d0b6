--------------------------- MODULE Trace_Convolve ---------------------------
(* Judges recorded scalings, shifts and smearings.                           *)
EXTENDS Convolve, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VT_TRACE)
VARIABLES l, cur            \* cur: the spectrum convolved next, as observed

AbsSum(d) == RSum([i \in 1..Len(d) |-> RAbs(d[i])])
Finite(d) == \A i \in 1..Len(d) : RIsFinite(d[i])
Close(d, e, rel) == RCloseSeq(d, e, "0", RAdd("1e-300", RMul(rel, AbsSum(e))))
Coherent(o) ==
  /\ o.shape = [k \in 1..Len(o.axes) |-> o.axes[k].b]
  /\ Len(o.data) = Prod(o.shape)
  /\ Finite(o.data)
NonNegative(o) == \A i \in 1..Len(o.data) : RLe("0", o.data[i])
NonEmpty(o) == \E i \in 1..Len(o.data) : ~REq("0", o.data[i])

P(ev) == CASE ev.how = "scale" -> "C18" [] ev.how = "shift" -> "C19" [] OTHER -> "C20"
AxisOf(sp, n) == IF n \in AxisNames(sp) THEN AxisNo(sp, n) ELSE 0

\* what every convolution keeps
Kept(ev, s, r) ==
  (IF r.axes = s.axes /\ r.shape = s.shape THEN {} ELSE {P(ev) \o ".axes"})
  \cup (IF REq(r.dec, s.dec) THEN {} ELSE {P(ev) \o ".decays"})
  \cup (IF r.raw = s.raw THEN {} ELSE {P(ev) \o ".raw_events"})
  \cup (IF r.rois = s.rois THEN {} ELSE {P(ev) \o ".rois"})

BadShift(ev, s, r, a) ==
  IF Whole(s, a, ev.v)
  THEN IF r.data = ShiftBins(s, a, Nearest(RDiv(ev.v, Width(s.axes[a])))).data \/
          Close(r.data, ShiftBins(s, a, Nearest(RDiv(ev.v, Width(s.axes[a])))).data, "1e-12")
       THEN {} ELSE {"C19.whole_bins"}
  ELSE IF NearlyWhole(s, a, ev.v) THEN {}
  ELSE {"moved"}

BadMoved(ev, s, r, a) ==
  LET m == Moved(s, a, ev.how, ev.v, ev.k)
      t == Total(s) tr == RSum(r.data)
  IN IF ~Finite(r.data) THEN {P(ev) \o ".not_a_number"}
     ELSE IF Unclear(s.axes[a], ev.how, ev.v) \/ ~Substantial(s, a, ev.how, ev.v, ev.k)
     THEN IF RClose(tr, t, "1e-9", "0") \/ REq(tr, "0") THEN {} ELSE {P(ev) \o ".total"}
     ELSE (IF RClose(tr, t, "1e-9", "0") THEN {} ELSE {P(ev) \o ".total"})
          \cup (IF RCloseSeq(Marginal(r.shape, r.data, {a}), Marginal(Shape(m), m.data, {a}),
                             "0", RMul("3e-4", t))
                THEN {} ELSE {P(ev) \o ".position"})
          \cup (IF RCloseSeq(r.data, m.data, "0", RMul("3e-4", t))
                THEN {} ELSE {P(ev) \o ".distribution"})
          \cup (IF ev.how = "scale" /\ REq(ev.v, "1") /\ ~Close(r.data, s.data, "3e-4")
                THEN {"C18.unit_factor"} ELSE {})

\* conservation over the other axes
Conserved(s, r, a) ==
  RCloseSeq(OthersOf(r, a), OthersOf(s, a), "0", RAdd("1e-300", RMul("1e-9", AbsSum(s.data))))
BadSmear(ev, s, r, a) ==
  LET ax == s.axes[a] IN
  IF ~Finite(r.data) THEN {"C20.not_a_number"} ELSE
  (IF Conserved(s, r, a) THEN {} ELSE {"C20.content_lost"})
  \cup (IF ReachUnclear(ev.sm, ax) \/ PhotonsUnclear(ev.sm, ax) \/ NoResponse(ev.sm, ax) THEN {}
        ELSE IF RCloseSeq(r.data, Smeared(s, a, ev.sm).data, "0",
                          RAdd("1e-300", RMul("1e-7", AbsSum(s.data)))) THEN {}
        ELSE {"C20.weights"})

\* random smearing
Marg(sp, a) == Marginal(Shape(sp), sp.data, {a})
Histo(ev, ax) ==     \* draws per bin
  LET v == RForce([i \in 1..Len(ev.draws) |-> Snap(Pos(ax, DrawnValue(ev.sm, ev.draws[i])))])
  IN RForce([j \in 1..ax.b |->
       Cardinality({i \in 1..Len(v) : RLe(j - 1, v[i]) /\ RLt(v[i], j)})])
DrawsUnclear(ev, ax) ==
  \E i \in 1..Len(ev.draws) :
     LET p == Pos(ax, DrawnValue(ev.sm, ev.draws[i])) IN
     RLt(RAbs(p), "1e6") /\ RClose(p, Nearest(p), "0", "1e-9") /\ ~Exact(ax)
BadRandom(ev, s, r, a) ==
  LET ax == s.axes[a]
      e == EntrySp(s)
      so == OthersOf(r, a) eo == OthersOf(e, a)
      em == Marg(e, a)
  IN IF ~Finite(r.data) THEN {"C20.not_a_number"} ELSE
  (IF \A c \in 1..Len(r.data) : RLe("0", r.data[c]) /\ REq(r.data[c], RFloor(r.data[c]))
   THEN {} ELSE {"C20.random_whole_entries"})
  \cup (IF \A i \in 1..Len(so) : RLe(so[i], eo[i]) THEN {} ELSE {"C20.random_other_axes"})
  \cup (IF Len(ev.draws) = 0 \/ \E i \in 1..Len(ev.draws) : ~RIsFinite(ev.draws[i].v) THEN {}
        ELSE
        (IF \A b \in 1..ax.b :
               Cardinality({i \in 1..Len(ev.draws) : DrawFits(ev.sm, ax, ev.draws[i], b - 1)})
               = RFloor(em[b])
            /\ Len(ev.draws) = RFloor(RSum(em))
         THEN IF DrawsUnclear(ev, ax) THEN {}
              ELSE IF RCloseSeq(Marg(r, a), Histo(ev, ax), "0", "1e-9") THEN {}
              ELSE {"C20.random_entries_lost"}
         ELSE {"C20.random_response"}))

\* an axis with negative energies has no energy response
NoEnergy(sm, ax) == sm.kind # "rad" /\ RLt(Centre(ax, 0), "0")

BadConv(ev, s) ==
  LET a == AxisOf(s, ev.axis) r == ev.res IN
  (IF ev.sp = s THEN {} ELSE {P(ev) \o "+C06.source_changed"})
  \cup (IF a = 0 THEN IF ev.ok THEN {P(ev) \o ".unknown_axis_accepted"} ELSE {}
        \* bins are moved as they are only by whole bins
        ELSE IF ev.binned /\ ~Whole(s, a, ev.v)
        THEN IF ev.ok /\ ~NearlyWhole(s, a, ev.v) THEN {"C19.part_of_a_bin_accepted"} ELSE {}
        ELSE IF ~ev.ok THEN
             IF ~ev.binned /\ ev.how \in {"scale", "shift"} /\ s.axes[a].b <= ev.k THEN {}
             ELSE IF ev.how \in {"smear", "random"} /\ NoEnergy(ev.sm, s.axes[a]) THEN {}
             ELSE {P(ev) \o ".failed"}
        ELSE Kept(ev, s, r)
        \cup IF r.axes # s.axes \/ r.shape # s.shape \/ Len(r.data) # Len(s.data)
                \/ (ev.how # "smear" /\ ~NonNegative(s))
                \/ (ev.how \in {"smear", "random"} /\ NoEnergy(ev.sm, s.axes[a]))
             THEN {}
             ELSE CASE ev.how = "shift" ->
                         LET x == BadShift(ev, s, r, a) IN
                         IF x = {"moved"} THEN IF NonEmpty(s) THEN BadMoved(ev, s, r, a)
                                               ELSE IF r.data = s.data THEN {} ELSE {"C19.empty"}
                         ELSE x
                    [] ev.how = "scale" ->
                         IF NonEmpty(s) THEN BadMoved(ev, s, r, a)
                         ELSE IF r.data = s.data THEN {} ELSE {"C18.empty"}
                    [] ev.how = "smear" -> BadSmear(ev, s, r, a)
                    [] ev.how = "random" -> BadRandom(ev, s, r, a))

(* Settings and the formulas behind them.                                    *)
SettingOk(ev) ==
  CASE ev.how = "factor" -> RLt("0", ev.v)
    [] ev.how = "num_sigma" -> RLt("0", ev.v)
    [] ev.how = "shift" -> TRUE
    [] OTHER -> ResolutionOk(ev.how, ev.v)
SP(ev) == CASE ev.how = "factor" -> "C18" [] ev.how = "shift" -> "C19" [] OTHER -> "C20"
BadSet(ev) ==
  IF ev.ok # SettingOk(ev) THEN
     {SP(ev) \o (IF ev.ok THEN ".invalid_setting_accepted" ELSE ".valid_setting_rejected")}
  ELSE IF RClose(ev.got, IF ev.ok THEN ev.v ELSE ev.was, "1e-12", "0") THEN {}
  ELSE {SP(ev) \o ".setting"}
\* combining two smearings: 1/ly and res^2 add up
BadCombine(ev) ==
  LET better == IF ev.how = "ly" THEN RLt(ev.cur, ev.v) ELSE RLt(ev.v, ev.cur) IN
  IF REq(ev.cur, ev.v) THEN {}
  ELSE IF better THEN IF ev.ok THEN {"C20.sharper_accepted"} ELSE {}
  ELSE IF ~ev.ok THEN {"C20.combine_rejected"}
  ELSE LET x == IF ev.how = "ly"
                THEN RSub(RDiv("1", ev.v), RDiv("1", ev.cur))
                ELSE RSub(RMul(ev.v, ev.v), RMul(ev.cur, ev.cur))
           y == IF ev.how = "ly" THEN RDiv("1", ev.got) ELSE RMul(ev.got, ev.got)
       IN IF RClose(x, y, "1e-6", "0") THEN {} ELSE {"C20.combine"}
BadFormula(ev) ==
  IF ~ev.ok THEN {"C20.formula_failed"} ELSE
  CASE ev.how = "sigma" ->
         IF RClose(ev.ret[1], Sigma(ev.sm, ev.v), "1e-9", "0") THEN {} ELSE {"C20.sigma"}
    [] ev.how = "bounds" ->
         IF RCloseSeq(ev.ret, Bounds(ev.sm, ev.v, ev.cur), "1e-9", "1e-9") THEN {} ELSE {"C20.bounds"}
    [] ev.how = "gauss" ->
         IF RClose(ev.ret[1], Gauss(ev.v, ev.was, ev.cur), "1e-9", "1e-300") THEN {} ELSE {"C20.gauss"}

Bad(ev) ==
  CASE ev.op = "crash" -> {"*.crash"}
    [] ev.op = "new" -> IF Coherent(ev.sp) THEN {} ELSE {"*.crash"}
    [] ev.op = "conv" -> IF Coherent(cur) THEN BadConv(ev, cur) ELSE {}
    [] ev.op = "set" -> BadSet(ev)
    [] ev.op = "combine" -> BadCombine(ev)
    [] ev.op = "formula" -> BadFormula(ev)
    [] OTHER -> {"*.crash"}

TInit == l = 1 /\ cur = <<>>
TNext == /\ l <= Len(Trace)
         /\ \A c \in Bad(Trace[l]) : PrintT(<<"BAD", l, c>>)
         /\ l' = l + 1
         /\ cur' = CASE Trace[l].op = "new" -> Trace[l].sp
                     [] Trace[l].op = "conv" /\ Trace[l].take /\ Trace[l].ok -> Trace[l].res
                     [] Trace[l].op = "conv" -> Trace[l].sp
                     [] OTHER -> cur
=============================================================================
