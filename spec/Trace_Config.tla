---------------------------- MODULE Trace_Config ----------------------------
EXTENDS Config, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VT_TRACE)
VARIABLES l, cf          \* cf: id -> configuration, as last observed

Ids == DOMAIN cf
\* observed configuration -> configuration of the specification
EntOf(o) == [key |-> o.key, sort |-> o.sort, par |-> o.par]
CfgOf(o) == [type |-> o.type, name |-> o.name, sp |-> o.sp,
             ents |-> [i \in 1..Len(o.ents) |-> EntOf(o.ents[i])]]
Seen(ev, id) == CHOOSE i \in 1..Len(ev.cfgs) : ev.cfgs[i].id = id
Observed(ev) == {ev.cfgs[i].id : i \in 1..Len(ev.cfgs)}
Resync(ev) == [id \in Observed(ev) |-> CfgOf(ev.cfgs[Seen(ev, id)])]

\* differences between configuration c (expected) and what was observed
EntDiff(c, o) ==
  IF [i \in 1..Len(o.ents) |-> o.ents[i].key] # Keys(c)
  THEN IF {o.ents[i].key : i \in 1..Len(o.ents)} = KeySet(c) /\ Len(o.ents) = Len(c.ents)
       THEN {"order"} ELSE {"parameters"}
  ELSE UNION {LET d == ParDiff(c.ents[i].par, o.ents[i].par) IN
              (IF c.type = "F" THEN d \ {"name"} ELSE d)
              \cup (IF c.ents[i].sort = o.ents[i].sort THEN {} ELSE {"sort"})
              : i \in 1..Len(c.ents)}
Diff(c, o) == EntDiff(c, o)
  \cup (IF c.type = o.type /\ c.sp = o.sp THEN {} ELSE {"type"})
  \cup (IF c.name = o.name THEN {} ELSE {"config_name"})

\* lookups of one observed configuration agree with each other
Lookups(o) ==
  LET n == Len(o.ents) IN
  (IF ~o.coherent THEN {"C09.cannot_be_read"} ELSE {})
  \cup (IF \A i \in 1..n : o.index[i] = i - 1 /\ o.byindex[i] THEN {} ELSE {"C09+C25.lookup_by_index"})
  \cup (IF o.shape = [i \in 1..n |-> o.ents[i].par.bins] THEN {} ELSE {"C09.shape"})
  \cup (IF o.unknown_par \/ o.unknown_index THEN {"C09+C25.unknown_name_accepted"} ELSE {})
  \cup (IF o.type = "G"
        THEN LET c == CfgOf(o) IN
             (IF o.globals = NamesOf(OfSort(c, "global")) THEN {} ELSE {"C25.global_parameters"})
             \cup (IF o.spectrals = NamesOf(OfSort(c, "spectra")) THEN {} ELSE {"C25.spectral_parameters"})
             \cup (IF \A i, j \in 1..n : i # j => o.ents[i].key # o.ents[j].key THEN {} ELSE {"C25.repeated_parameter"})
        ELSE {})
  \cup (IF o.type = "S"
        THEN LET want == [i \in 1..n |-> DimOf(o.ents[i].key)]
                 Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
                 named == {i \in 1..n : want[i] # ""} IN
             (IF Len(o.dims) = n /\ \A i \in 1..n : Count(o.dims, want[i]) = Count(want, want[i])
              THEN {} ELSE {"C09.dimensions"})
             \cup (IF \A i \in 1..n : o.dim_of[i] = want[i] THEN {} ELSE {"C09.dimension_of_parameter"})
             \cup (IF \A i \in named : Count(want, want[i]) = 1 => o.type_of[i] = TypeOf(o.ents[i].key)
                   THEN {} ELSE {"C09.type_of_dimension"})
        ELSE {})

\* what the step asks for: [rej, id, cfg, who]
Step(ev) ==
  CASE ev.op = "new" -> [rej |-> FALSE, id |-> ev.id, who |-> "C09",
                         cfg |-> [type |-> ev.type, name |-> ev.name, sp |-> ev.sp, ents |-> ev.ents]]
    [] ev.op = "addpar" -> [rej |-> ~AddParOk(cf[ev.id], ev.sort), id |-> ev.id, who |-> "C25",
                            cfg |-> IF AddParOk(cf[ev.id], ev.sort) THEN AddPar(cf[ev.id], ev.par, ev.sort)
                                    ELSE cf[ev.id]]
    [] ev.op = "addcfg" -> [rej |-> ~AddConfigOk(cf[ev.id], cf[ev.src]), id |-> ev.id, who |-> "C25",
                            cfg |-> IF AddConfigOk(cf[ev.id], cf[ev.src]) THEN AddConfig(cf[ev.id], cf[ev.src])
                                    ELSE cf[ev.id]]
    [] ev.op = "trip" ->
         [rej |-> FALSE, id |-> ev.to, who |-> "C09",
          cfg |-> RoundTrip(cf[ev.id], ev.basic,
                    IF ev.via = "yaml"
                    THEN LoadedName(cf[ev.id].type, ev.asked, Files(cf[ev.id], ev.f1, ev.f2)[1])
                    ELSE IF ev.asked = "none" THEN DefaultName(cf[ev.id].type) ELSE ev.asked)]
    [] ev.op = "load" ->
         [rej |-> ev.broken # "" \/ ~LoadOk(ev.type, ev.glob, ev.flat), id |-> ev.to, who |-> "C09",
          cfg |-> IF ev.broken # "" \/ ~LoadOk(ev.type, ev.glob, ev.flat)
                  THEN [type |-> ev.type, name |-> "", sp |-> "", ents |-> <<>>]
                  ELSE Load(ev.type, ev.glob, ev.flat,
                            IF ev.asked = "none" THEN DefaultName(ev.type)
                            ELSE IF ev.asked = "" /\ ev.via = "yaml" THEN SSub(ev.f1, 0, SLen(ev.f1) - 4)
                            ELSE ev.asked, ev.sp)]
    [] ev.op = "update" ->
         [rej |-> FALSE, id |-> ev.id, who |-> "C09",
          cfg |-> [cf[ev.id] EXCEPT !.ents =
             [i \in 1..Len(@) |-> IF @[i].key # ev.key THEN @[i]
                ELSE [@[i] EXCEPT !.par.prior = ev.par.prior, !.par.cur = ev.par.cur,
                                  !.par.best = ev.par.best, !.par.pen = ev.par.pen,
                                  !.par.bins = ev.par.bins]]]]
Defined(ev) ==
  CASE ev.op \in {"addpar", "update"} -> ev.id \in Ids
    [] ev.op = "addcfg" -> ev.id \in Ids /\ ev.src \in Ids
    [] ev.op = "trip" -> ev.id \in Ids /\ Dumpable(cf[ev.id])
    [] OTHER -> TRUE

BadStep(ev) ==
  IF ~Defined(ev) THEN {}
  ELSE LET s == Step(ev)  O == Observed(ev) IN
  IF s.rej
  THEN (IF ev.ok THEN {s.who \o ".accepted"} ELSE {})
       \cup UNION {IF id \in O /\ Diff(cf[id], ev.cfgs[Seen(ev, id)]) = {} THEN {}
                   ELSE {s.who \o ".rejected_but_changed"} : id \in Ids}
  ELSE IF ~ev.ok THEN {s.who \o ".rejected"}
  ELSE IF ~(s.id \in O) THEN {s.who \o ".missing"}
  ELSE {s.who \o "." \o d : d \in Diff(s.cfg, ev.cfgs[Seen(ev, s.id)])}
       \cup UNION {IF id \in O /\ Diff(cf[id], ev.cfgs[Seen(ev, id)]) = {} THEN {}
                   ELSE {s.who \o ".other_config_changed"} : id \in Ids \ {s.id}}
       \cup (IF ev.op = "trip" /\ ev.via = "yaml" /\ 
                {ev.files[i] : i \in 1..Len(ev.files)} #
                LET f == Files(cf[ev.id], ev.f1, ev.f2) IN {f[i] : i \in 1..Len(f)}
             THEN {"C09.file_names"} ELSE {})
Bad(ev) ==
  IF ev.op = "crash" THEN {"*.crash"}
  ELSE BadStep(ev) \cup UNION {Lookups(ev.cfgs[i]) : i \in 1..Len(ev.cfgs)}

TInit == l = 1 /\ cf = <<>>
TNext == /\ l <= Len(Trace)
         /\ \A c \in Bad(Trace[l]) : PrintT(<<"BAD", l, c>>)
         /\ l' = l + 1
         \* every sequence starts from nothing
         /\ cf' = IF l < Len(Trace) /\ Trace[l+1].sq # Trace[l].sq THEN <<>>
                  ELSE IF Trace[l].op = "crash" THEN cf ELSE Resync(Trace[l])
=============================================================================
