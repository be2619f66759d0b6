----------------------------- MODULE Trace_Decay -----------------------------
(* Judges recorded conversions.                                              *)
EXTENDS Decay, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VT_TRACE)
\* iso: <<isotope>> or <<>>; seen: what a chain of conversions went through
VARIABLES l, iso, seen
Chained(ev) == {s \in seen : s.n = ev.n /\ s.t = ev.t}
Bad(ev) ==
  CASE ev.op = "crash" -> {"*.crash"}
    [] ev.op = "new" ->
       (IF NaturalAt(ev.k) THEN {} ELSE {"C22.constants"}) \cup
       (IF IsoRejected(ev.o) THEN IF ev.ok THEN {"C22.accepts_isotope"} ELSE {}
        ELSE IF ev.ok THEN {} ELSE {"C22.rejects_isotope"})
    [] iso = <<>> -> {}
    [] ev.op = "atoms" ->
       IF AtomsRejected(iso[1], ev.a) THEN IF ev.ok THEN {"C22.accepts_atoms"} ELSE {}
       ELSE IF ~ev.ok THEN {"C22.rejects_atoms"}
       ELSE IF Close(ev.y, Atoms(ev.k, iso[1], ev.a)) THEN {} ELSE {"C22.atoms"}
    [] ev.op = "convert" ->
       LET c == <<ev.from, ev.to>>
           n == IF ev.n = "none" THEN Atoms(ev.k, iso[1], Plain) ELSE ev.n
           t == IF ev.t = "none" THEN "5" ELSE ev.t IN
       IF ConvRejected(c, ev.x, t) THEN IF ev.ok THEN {"C22.accepts_value"} ELSE {}
       ELSE IF ~ConvClear(c, ev.x) \/ (UsesAtoms(c) /\ ~AtomsClear(c, n)) THEN {}
       ELSE IF ~ev.ok THEN {"C22.rejects_value"}
       ELSE (IF Close(ev.y, Convert(ev.k, iso[1], ev.from, ev.to, ev.x, n, t)) THEN {}
             ELSE {SCat("C22.", SCat(ev.from, SCat("_to_", ev.to)))})
            \cup (IF ev.chain /\ RLt("0", n) /\ \E s \in Chained(ev) : s.q = ev.to /\ ~Close(s.v, ev.y)
                  THEN {"C22.round_trip"} ELSE {})
TInit == l = 1 /\ iso = <<>> /\ seen = {}
TNext ==
  /\ l <= Len(Trace)
  /\ LET ev == Trace[l] IN
     /\ \A c \in Bad(ev) : PrintT(<<"BAD", l, c>>)
     /\ iso' = CASE ev.op = "new" ->
                    IF ev.ok /\ ~IsoRejected(ev.o) THEN <<IsoOf(ev.o, ev.k)>> ELSE <<>>
                 [] ev.op = "crash" -> <<>>
                 [] OTHER -> iso
     /\ seen' = IF ev.op = "convert" /\ ev.ok
                THEN (IF ev.chain THEN seen ELSE {}) \cup
                     {[q |-> ev.from, v |-> ev.x, n |-> ev.n, t |-> ev.t],
                      [q |-> ev.to, v |-> ev.y, n |-> ev.n, t |-> ev.t]}
                ELSE {}
  /\ l' = l + 1
=============================================================================
