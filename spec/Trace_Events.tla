---------------------------- MODULE Trace_Events -----------------------------
(* Judges recorded fillings.                                                 *)
EXTENDS Events, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VT_TRACE)
\* live spectra, as observed: records of a spectrum and bipo
VARIABLES l, heap
Spec(h) == [axes |-> h.axes, data |-> h.data, dec |-> h.dec, raw |-> h.raw, rois |-> <<>>]
Coherent(h) == Len(h.data) = Prod([k \in 1..Len(h.axes) |-> h.axes[k].b])
Same(a, b) == a = b
Diff(h, s) ==
  IF h.axes # s.axes \/ Len(h.data) # Len(s.data) THEN {"C23.axes"}
  ELSE (IF RCloseSeq(h.data, s.data, "1e-9", "0") THEN {} ELSE {"C23.counts"})
       \cup (IF h.raw = s.raw THEN {} ELSE {"C23.raw_events"})
       \cup (IF REq(h.dec, s.dec) THEN {} ELSE {"C23.decays"})
\* a fill into spectrum i (0: a new one)
Start(ev) == IF ev.i = 0 THEN NewSpectrum(ev.axes, 0) ELSE Spec(heap[ev.i])
After(ev) == IF ev.i = 0 THEN ev.heap[Len(ev.heap)] ELSE ev.heap[ev.i]
BadFill(ev) ==
  LET sp == Start(ev) IN
  IF ev.i # 0 /\ ~Coherent(heap[ev.i]) THEN {}
  ELSE IF FileRejected(sp, ev.o) \/ (ev.i = 0 /\ ev.name = "")
  THEN (IF ev.ok THEN {"C23.accepts"} ELSE {}) \cup
       (IF ev.i # 0 /\ ~Same(ev.heap[ev.i], heap[ev.i]) THEN {"C23.rejected_changes"} ELSE {})
  ELSE LET cs == Candidates(sp, ev.file, ev.o) IN
       IF CandsFail(cs) THEN IF ev.ok THEN {"C23.ambiguous_cut"} ELSE {}
       ELSE IF ~CandsClear(cs) THEN {}
       ELSE IF ~ev.ok THEN {"C23.fails"}
       ELSE Diff(After(ev), FillFile(sp, ev.file, ev.o))
            \cup (IF After(ev).bipo = (IF ev.o.bipo THEN 1 ELSE IF ev.i = 0 THEN 0 ELSE heap[ev.i].bipo)
                  THEN {} ELSE {"C23.bipo_flag"})
            \cup (IF ev.i = 0 /\ After(ev).name # ev.name THEN {"C23.name"} ELSE {})
            \cup (IF ev.returned THEN {} ELSE {"C23.returns_other"})
BadExtract(ev) ==
  IF XRejected(ev.x) THEN IF ev.made THEN {"C23.accepts_extractor"} ELSE {}
  ELSE IF ~ev.made THEN {"C23.rejects_extractor"}
  ELSE LET v == IF ev.kind = "root" THEN RootValid(ev.x, ev.event, ev.trig)
                ELSE RowValid(ev.x, ev.event) IN
       CASE v = "open" -> {}
         [] v = "error" -> IF ev.ok THEN {"C23.ambiguous_cut"} ELSE {}
         [] v = "no" -> IF ev.ok /\ ~ev.valid THEN {} ELSE {"C23.accepts_event"}
         [] v = "yes" ->
            IF ~(ev.ok /\ ev.valid) THEN {"C23.rejects_event"}
            ELSE LET y == IF ev.kind = "root" THEN RootValue(ev.x, ev.event, ev.trig)
                          ELSE RowValue(ev.x, ev.event) IN
                 IF ev.y # "none" /\ RClose(ev.y, y, "1e-9", "1e-15") THEN {} ELSE {"C23.value"}
Others(ev) == \E k \in 1..Len(heap) : k # ev.i /\ ~Same(ev.heap[k], heap[k])
Bad(ev) ==
  CASE ev.op = "crash" -> {"*.crash"}
    [] ev.op = "extract" -> BadExtract(ev)
    [] ev.op = "fill" -> BadFill(ev) \cup (IF Others(ev) THEN {"C23.changes_others"} ELSE {})
    [] OTHER -> {}
TInit == l = 1 /\ heap = <<>>
TNext ==
  /\ l <= Len(Trace)
  /\ LET ev == Trace[l] IN
     /\ \A c \in Bad(ev) : PrintT(<<"BAD", l, c>>)
     /\ heap' = CASE ev.op = "fill" -> ev.heap [] ev.op = "start" -> <<>> [] OTHER -> heap
  /\ l' = l + 1
=============================================================================
