--------------------------- MODULE Trace_Spectrum ---------------------------
(* Judges calls recorded from real spectra: each line carries the call and   *)
(* the projection of every live spectrum after it.                           *)
EXTENDS Spectrum, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VT_TRACE)
VARIABLES l, heap

\* the observed spectrum as a record of the specification
Spec(o) == [axes |-> o.axes, data |-> o.data, dec |-> o.dec, raw |-> o.raw,
            rois |-> o.rois]
AbsSum(d) == RSum([i \in 1..Len(d) |-> RAbs(d[i])])
DataOk(o, s) ==
  /\ Len(o.data) = Len(s.data)
  /\ \/ o.data = s.data
     \/ RCloseSeq(o.data, s.data, "1e-9", RAdd("1e-300", RMul("1e-13", AbsSum(s.data))))
EdgeTol(s, k) == RAdd(RMul("1e-14", RAdd(RAbs(s.axes[k].lo), RAbs(s.axes[k].hi))),
                      RMul("1e-9", Width(s.axes[k])))
AxesOk(o, s) ==
  /\ Len(o.axes) = Len(s.axes)
  /\ \A k \in 1..Len(s.axes) :
       /\ o.axes[k].n = s.axes[k].n /\ o.axes[k].b = s.axes[k].b
       /\ RClose(o.axes[k].lo, s.axes[k].lo, "0", EdgeTol(s, k))
       /\ RClose(o.axes[k].hi, s.axes[k].hi, "0", EdgeTol(s, k))
DecOk(o, s) == RClose(o.dec, s.dec, "1e-9", "1e-300")
RawOk(o, s) == o.raw = s.raw
RoiSet(s) == {s.rois[i] : i \in 1..Len(s.rois)}
RoiNames(s) == {r.n : r \in RoiSet(s)}
RoiOf(s, n) == CHOOSE r \in RoiSet(s) : r.n = n
RoisOk(o, s) ==
  /\ RoiNames(o) = RoiNames(s)
  /\ \A n \in RoiNames(s) :
       LET x == RoiOf(o, n) y == RoiOf(s, n) IN
       /\ RClose(x.lo, y.lo, "1e-9", "1e-9") /\ RClose(x.hi, y.hi, "1e-9", "1e-9")
       /\ RClose(x.eff, y.eff, "1e-9", "1e-12")
Same(o, s) == o = s
Describes(o) ==
  /\ o.shape = [k \in 1..Len(o.axes) |-> o.axes[k].b]
  /\ Len(o.data) = Prod(o.shape)
  /\ RClose(o.sum, RSum(o.data), "1e-9", RMul("1e-12", AbsSum(o.data)))

\* names of the parts of spectrum o that differ from the expected s
Diff(o, s, tag) ==
  (IF DataOk(o, s) THEN {} ELSE {tag \o "_data"})
  \cup (IF AxesOk(o, s) THEN {} ELSE {tag \o "_axes"})
  \cup (IF RoisOk(o, s) THEN {} ELSE {tag \o "_rois"})
DecDiff(o, s, tag) == IF DecOk(o, s) THEN {} ELSE {tag \o "_decays"}
RawDiff(o, s, tag) == IF RawOk(o, s) THEN {} ELSE {tag \o "_raw"}
AllDiff(o, s, tag) == Diff(o, s, tag) \cup DecDiff(o, s, tag) \cup RawDiff(o, s, tag)

\* a: spectrum before, o: after
BadFill(ev, a, o) ==
  IF FillAccepted(a, ev.vals)
  THEN IF ~ev.ok THEN {"C01.valid_fill_rejected"}
       ELSE Diff(o, Fill(a, ev.vals, ev.w), "C01.fill") \cup DecDiff(o, a, "C01.fill")
  ELSE (IF ev.ok THEN {"C01.bad_fill_accepted"} ELSE {})
       \cup Diff(o, a, "C01.rejected_fill") \cup DecDiff(o, a, "C01.rejected_fill")

BadShrink(ev, a, o) ==
  IF ShrinkRejected(a, ev.req)
  THEN (IF ev.ok THEN {"C02.bad_request_accepted"} ELSE {})
       \cup AllDiff(o, a, "C02.rejected_request")
  ELSE IF ~ShrinkDefined(a, ev.req)
  THEN IF ev.ok THEN {} ELSE AllDiff(o, a, "C02.rejected_empty_request")
  ELSE IF ev.op # "shrink" /\ REq(Total(a), "0") THEN {}
  ELSE IF ~ev.ok THEN {"C02.valid_request_rejected"}
  ELSE CASE ev.op = "shrink" ->
              LET s == Shrink(a, ev.req) IN
              Diff(o, s, "C02.shrink") \cup DecDiff(o, s, "C05.shrink") \cup RawDiff(o, s, "C05.shrink")
         [] ev.op = "cut" ->
              LET s == Cut(a, ev.req) IN
              Diff(o, s, "C02.cut") \cup DecDiff(o, s, "C05.cut") \cup RawDiff(o, s, "C05.cut")
         [] ev.op = "roi" ->
              LET s == Roi(a, ev.req[1].n, ev.req[1].v, ev.req[2].v) IN
              Diff(o, s, "C02.roi") \cup DecDiff(o, s, "C05.roi") \cup RawDiff(o, s, "C05.roi")

BadRebin(ev, a, o) ==
  IF RebinAccepted(a, ev.bins)
  THEN IF ~ev.ok THEN {"C03.valid_rebin_rejected"}
       ELSE AllDiff(o, Rebin(a, ev.bins), "C03.rebin")
  ELSE (IF ev.ok THEN {"C03.bad_rebin_accepted"} ELSE {})
       \cup AllDiff(o, a, "C03.rejected_rebin")

BadScale(ev, a, o) ==
  IF REq(a.dec, "0") THEN {}
  ELSE IF ~ev.ok THEN {"C05.scale_rejected"}
  ELSE AllDiff(o, ScaleTo(a, ev.to), "C05.scale")

BadAdd(ev, a, b, o) ==
  IF ~AddAccepted(a, b)
  THEN (IF ev.ok THEN {"C05.bad_add_accepted"} ELSE {})
       \cup AllDiff(o, a, "C05.rejected_add")
  ELSE IF ~AddDefined(a, b)
  THEN IF ev.ok THEN AllDiff(o, AddByName(a, b), "C05.add_reordered")
       ELSE AllDiff(o, a, "C05.rejected_add")
  ELSE IF ~ev.ok THEN {"C05.valid_add_rejected"}
  ELSE AllDiff(o, Add(a, b), "C05.add")

BadProject(ev, a, o) ==
  LET ns == {ev.names[i] : i \in 1..Len(ev.names)} IN
  AllDiff(o, a, "C04.source")
  \cup IF ns \subseteq AxisNames(a)
       THEN IF ~ev.ok THEN {"C04.rejected"}
            ELSE LET p == Project(a, ns)
                     sh == SubShape(Shape(a), KeptAxes(Shape(a),
                              {k \in 1..Len(a.axes) : a.axes[k].n \in ns}))
                 IN (IF ev.rshape # sh THEN {"C04.shape"} ELSE {})
                    \cup (IF RCloseSeq(ev.ret, p, "1e-9", RMul(IF ev.what = "interpolate" THEN "1e-9" ELSE "1e-13",
                                                           AbsSum(a.data)))
                          THEN {} ELSE IF ev.what = "interpolate" THEN {"C04.interpolation"} ELSE {"C04.values"})
       ELSE IF ev.ok THEN {"C04.unknown_accepted"} ELSE {}

Target(ev) == ev.op \in {"fill", "shrink", "cut", "roi", "rebin", "scale", "add", "project", "scribble"}
Bad(ev) ==
  IF ev.op = "crash" THEN {"*.crash"} ELSE
  LET n == Len(ev.heap)
      first == ev.op = "new" /\ ev.i = 1     \* a new sequence starts
      old == IF first THEN <<>> ELSE heap
      made == ev.op \in {"new", "copy", "derive"} /\ ev.ok
      frame == {k \in 1..Len(old) : ~(Target(ev) /\ k = ev.i)}
  IN
  (IF n # Len(old) + (IF made THEN 1 ELSE 0) THEN {"*.crash"} ELSE
   (IF \E k \in frame : ~Same(ev.heap[k], old[k]) THEN
       {CASE ev.op = "derive" -> "C06.derivation_changes_source"
          [] ev.op = "add" -> "C05+C06.other_spectrum_changed"
          [] OTHER -> "C06.other_spectrum_changed"} ELSE {})
   \cup (IF ev.op # "new" /\ ~(Describes(old[ev.i]) /\ (ev.op = "add" => Describes(old[ev.j])))
         THEN {}          \* reported when it became inconsistent
         ELSE IF Target(ev) /\ ~Describes(ev.heap[ev.i]) THEN {}   \* reported below
         ELSE CASE ev.op = "fill" -> BadFill(ev, Spec(old[ev.i]), ev.heap[ev.i])
          [] ev.op \in {"shrink", "cut", "roi"} -> BadShrink(ev, Spec(old[ev.i]), ev.heap[ev.i])
          [] ev.op = "rebin" -> BadRebin(ev, Spec(old[ev.i]), ev.heap[ev.i])
          [] ev.op = "scale" -> BadScale(ev, Spec(old[ev.i]), ev.heap[ev.i])
          [] ev.op = "add" -> BadAdd(ev, Spec(old[ev.i]), Spec(old[ev.j]), ev.heap[ev.i])
          [] ev.op = "project" -> BadProject(ev, Spec(old[ev.i]), ev.heap[ev.i])
          [] ev.op = "scribble" -> IF Same(ev.heap[ev.i], old[ev.i]) THEN {} ELSE {"C04.result_shares_data"}
          [] ev.op = "new" -> LET s == [NewSpectrum(ev.axes, ev.dec) EXCEPT !.raw = ev.raw] IN
                              AllDiff(ev.heap[n], s, "C01+C02+C06.new")
          [] ev.op = "copy" -> IF ~ev.ok THEN {"C06.copy_failed"}
                               ELSE IF Same(ev.heap[n], old[ev.i]) THEN {} ELSE {"C06.copy_differs"}
          [] OTHER -> {})
   \cup (IF \E k \in 1..n : ((Target(ev) /\ k = ev.i) \/ (made /\ k = n)) /\ ~Describes(ev.heap[k])
         THEN {"C01+C02+C03.axes_do_not_describe_data"} ELSE {}))

TInit == l = 1 /\ heap = <<>>
TNext == /\ l <= Len(Trace)
         /\ \A c \in Bad(Trace[l]) : PrintT(<<"BAD", l, c>>)
         /\ l' = l + 1
         /\ heap' = IF Trace[l].op = "crash" THEN <<>> ELSE Trace[l].heap
=============================================================================
