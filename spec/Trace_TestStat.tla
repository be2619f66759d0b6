--------------------------- MODULE Trace_TestStat ---------------------------
EXTENDS TestStat, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VT_TRACE)
VARIABLE l
NoC == {}

\* clauses an observed call breaks
BadStat(ev) ==
  LET n   == Len(ev.obs)
      sameShape == ev.oshape = ev.eshape /\ Len(ev.oshape) = 1
      pb  == PerBin(ev.kind, ev.obs, ev.exp)
      tol == Noise(ev.obs, ev.exp)
  IN
  IF ~sameShape THEN IF ev.ok THEN {"C10.mismatch_accepted"} ELSE {}
  ELSE IF ~ev.ok THEN {"C10.rejected_valid"}
  ELSE
   (IF ev.perbin
    THEN (IF Len(ev.out) # n THEN {"C10.perbin_length"} ELSE {})
         \cup (IF ~RCloseSeq(ev.out, pb, "1e-9", tol) THEN {"C10.perbin_value"} ELSE {})
         \cup (IF ~RClose(RSum(ev.out), RSum(pb), "1e-9", tol) THEN {"C10.perbin_sum"} ELSE {})
    ELSE (IF Len(ev.out) # 1 \/ ev.outdim # 0 THEN {"C10.total_form"}
          ELSE IF ~RClose(ev.out[1], RSum(pb), "1e-9", tol) THEN {"C10.total_value"} ELSE {}))
   \cup (IF ~RCloseSeq(ev.obs2, ev.obs, "0", "1e-30") THEN {"C10.observed_modified"} ELSE {})
   \cup (IF ~RCloseSeq(ev.exp2, ev.exp, "0", "1e-30") THEN {"C10.expected_modified"} ELSE {})

BadPenalty(ev) ==
  IF ~ev.ok THEN {"C10.penalty_rejected"}
  ELSE IF ~RClose(ev.out, Penalty(ev.kind, ev.value, ev.prior, ev.sigma), "1e-9", "1e-300")
       THEN {"C10.penalty_value"} ELSE {}

Bad(ev) == CASE ev.op = "stat" -> BadStat(ev)
             [] ev.op = "penalty" -> BadPenalty(ev)
             [] OTHER -> {"*.crash"}

TInit == l = 1 /\ obs = <<>> /\ exp = <<>>
TNext == /\ l <= Len(Trace)
         /\ \A c \in Bad(Trace[l]) : PrintT(<<"BAD", l, c>>)
         /\ l' = l + 1
         /\ UNCHANGED <<obs, exp>>
=============================================================================
