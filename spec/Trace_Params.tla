---------------------------- MODULE Trace_Params ----------------------------
EXTENDS Params, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VT_TRACE)
VARIABLES l, p

Seen(ev) == [p EXCEPT !.lo = ev.lo, !.hi = ev.hi, !.b = ev.b, !.prior = ev.prior,
                          !.sigma = ev.sigma, !.dim = ev.dim]
\* the flags a parameter was given, as far as the updates say
After(ev) ==
  CASE ev.op = "fit" -> [lo |-> ev.lo, hi |-> ev.hi, b |-> ev.b, prior |-> ev.prior,
                         log |-> ev.log, dev |-> ev.dev, sure |-> ev.ok,
                         sigma |-> ev.sigma, dim |-> ev.dim]
    [] ev.op = "axis" -> [lo |-> ev.lo, hi |-> ev.hi, b |-> ev.b, prior |-> "0",
                          log |-> FALSE, dev |-> FALSE, sure |-> ev.ok,
                          sigma |-> "none", dim |-> "none"]
    [] ev.op = "set" ->
         IF ev.ok THEN LET q == SetAll(p, ev.kw) IN [Seen(ev) EXCEPT !.log = q.log, !.dev = q.dev]
         ELSE [Seen(ev) EXCEPT !.sure = p.sure /\
                 ~\E i \in 1..Len(ev.kw) : ev.kw[i].k \in {"logscale", "logscale_deviation"}]
    [] ev.op = "aset" -> Seen(ev)
    [] OTHER -> p

Fields(ev, q, tag) ==
  IF RClose(ev.lo, q.lo, "1e-12", "0") /\ RClose(ev.hi, q.hi, "1e-12", "0")
     /\ RClose(ev.prior, q.prior, "1e-12", "0") /\ ev.b = q.b
     /\ ev.dim = q.dim
     /\ IF "none" \in {ev.sigma, q.sigma} THEN ev.sigma = q.sigma
        ELSE RClose(ev.sigma, q.sigma, "1e-12", "0") THEN {} ELSE {tag}

BadGrid(ev) ==
  IF ~p.sure \/ ~GridDefined(p) THEN {}
  ELSE IF ~ev.ok THEN {"C07.no_grid"}
  ELSE {"C07." \o f : f \in GridFaults(p, ev.vals)}
    \cup (IF \A i \in 1..Len(ev.vals) : ev.idx[i] = i - 1 THEN {} ELSE {"C07.index_of_value"})
    \cup (IF ev.at = ev.vals THEN {} ELSE {"C07.value_at_index"})
    \cup (IF ev.i = 0 THEN {} ELSE {"C07.index_past_the_end_accepted"})
BadCheck(ev) ==
  IF Len(ev.vals) < 2 \/ \E i \in 1..Len(ev.vals) : ~RIsFinite(ev.vals[i]) THEN {}
  ELSE IF ~ev.ok THEN {"C07.check_failed"}
  ELSE LET n == Warnings(ev.cls, ev.vals, ev.prior) IN
       IF n = -1 \/ n = ev.told THEN {}
       ELSE IF n > ev.told THEN {"C07.not_warned"} ELSE {"C07.warned_without_cause"}
BadLookup(ev) ==
  IF \E i \in 1..Len(ev.vals) : REq(ev.vals[i], ev.x) THEN {}
  ELSE IF ev.ok THEN {"C07.value_not_on_grid_accepted"}
  ELSE IF ev.err \in {"ValueError", "IndexError", "KeyError", "LookupError"} THEN {}
  ELSE {"C07.unclear_error"}

A == [lo |-> p.lo, hi |-> p.hi, b |-> p.b]
AxisDefined == RLt(p.lo, p.hi) /\ p.b >= 1
BadGeometry(ev) ==
  IF ~AxisDefined THEN {}
  ELSE IF ~ev.ok THEN {"C08.rejected"}
  ELSE (IF Len(ev.edges) = A.b + 1 /\ \A i \in 1..Len(ev.edges) :
             RClose(ev.edges[i], AxEdge(A, i - 1), "0", AxTol(A)) THEN {} ELSE {"C08.edges"})
    \cup (IF Len(ev.centres) = A.b /\ \A i \in 1..Len(ev.centres) :
             RClose(ev.centres[i], AxCentre(A, i - 1), "0", AxTol(A)) THEN {} ELSE {"C08.centres"})
    \cup (IF Len(ev.centre_of) = A.b /\ \A i \in 1..A.b :
             RClose(ev.centre_of[i], AxCentre(A, i - 1), "0", AxTol(A)) THEN {} ELSE {"C08.centre_of_bin"})
    \cup (IF RClose(ev.width, AxWidth(A), "1e-9", "0") THEN {} ELSE {"C08.width"})
BadBin(ev) ==
  IF ~AxisDefined THEN {}
  ELSE IF Inside(A, ev.x)
  THEN IF REq(ev.x, A.hi) THEN {}        \* the upper edge itself: either
       ELSE IF ~ev.ok THEN {"C08.value_in_range_rejected"}
       ELSE IF ev.exact /\ ev.i # BinExact(A, ev.x) THEN {"C08.bin_of_edge"}
       ELSE IF ~BinOk(A, ev.x, ev.i) THEN {"C08.bin_of_value"} ELSE {}
  ELSE IF ~ev.ok THEN {}
  ELSE IF RClose(ev.x, A.lo, "0", AxTol(A)) \/ RClose(ev.x, A.hi, "0", AxTol(A)) THEN {}
  ELSE {"C08.value_out_of_range_accepted"}
BadAround(ev) ==
  IF ~AxisDefined \/ ~Inside(A, ev.x) THEN {}
  ELSE IF ~ev.ok \/ ~RoundOk(A, ev.x, ev.out) THEN {"C08.round"} ELSE {}
BadCentre(ev) ==
  IF ~AxisDefined THEN {}
  ELSE IF ev.i \in 0..(A.b - 1)
  THEN IF ev.ok /\ RClose(ev.out, AxCentre(A, ev.i), "0", AxTol(A)) THEN {} ELSE {"C08.centre_of_bin"}
  ELSE IF ev.ok THEN {"C08.bad_bin_number_accepted"} ELSE {}

Bad(ev) ==
  CASE ev.op = "fit" -> IF ev.ok THEN {} ELSE {"C07.construction"}
    [] ev.op = "axis" -> IF ev.ok THEN {} ELSE {"C08.construction"}
    [] ev.op = "set" ->
         IF SetAccepted(ev.kw, FitKeys)
         THEN IF ~ev.ok THEN {"C07.update_rejected"} ELSE Fields(ev, SetAll(p, ev.kw), "C07.update")
         ELSE IF ev.ok THEN {"C07.unknown_field_accepted"} ELSE {}
    [] ev.op = "aset" ->
         IF SetAccepted(ev.kw, {"low", "high", "bins"})
         THEN IF ~ev.ok THEN {"C08.update_rejected"} ELSE Fields(ev, SetAll(p, ev.kw), "C08.update")
         ELSE IF ev.ok THEN {"C08.unknown_field_accepted"} ELSE {}
    [] ev.op = "grid" -> BadGrid(ev)
    [] ev.op = "check" -> BadCheck(ev)
    [] ev.op = "lookup" -> BadLookup(ev)
    [] ev.op = "geometry" -> BadGeometry(ev)
    [] ev.op = "abin" -> BadBin(ev)
    [] ev.op = "around" -> BadAround(ev)
    [] ev.op = "acentre" -> BadCentre(ev)
    [] OTHER -> {"*.crash"}

TInit == l = 1 /\ p = [lo |-> "0", hi |-> "1", b |-> 1, prior |-> "0", log |-> FALSE,
                       dev |-> FALSE, sure |-> FALSE, sigma |-> "none", dim |-> "none"]
TNext == /\ l <= Len(Trace)
         /\ \A c \in Bad(Trace[l]) : PrintT(<<"BAD", l, c>>)
         /\ l' = l + 1
         /\ p' = IF Trace[l].op = "crash" THEN [p EXCEPT !.sure = FALSE] ELSE After(Trace[l])
=============================================================================
