---------------------------- MODULE Trace_PreMade ----------------------------
(* Judges recorded names, loads and fits with pre-made convolutions.         *)
EXTENDS PreMade, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VT_TRACE)
VARIABLES l, files, asked, fit
vars == <<l, files, asked, fit>>
NoFit == [here |-> FALSE]
Clean(files_, n) == {f \in files_ : ~SameName(f.name, n)}
AllHere(ps) == \A i \in 1..Len(fit.floats) : HasFile(files, fit.floats[i].sp, fit.base, ps)
SigHere(ps) == \A i \in 1..Len(fit.signal) : HasFile(files, fit.signal[i].sp, fit.base, ps)
RECURSIVE SumOf(_, _)
SumOf(parts, i) == IF i = 1 THEN parts[1] ELSE RAddSeq(SumOf(parts, i - 1), parts[i])
Expected(e) ==
  LET fl == [i \in 1..Len(fit.floats) |->
               InFit(files, fit.floats[i].sp, fit.base, e.ps,
                     IF fit.floats[i].rate = 0 THEN "none" ELSE e.rates[fit.floats[i].rate], 4)]
      sg == [i \in 1..Len(fit.signal) |-> InFit(files, fit.signal[i].sp, fit.base, e.ps, "none", 4)] IN
  SumOf(fl \o sg, Len(fl \o sg))
\* each systematic once, in order of first application, at its last value
Settled(ps) ==
  LET same(i, j) == ps[i].dim = ps[j].dim /\ ps[i].kind = ps[j].kind
      firsts == SelectSeq([i \in 1..Len(ps) |-> i], LAMBDA i : \A j \in 1..i-1 : ~same(i, j)) IN
  [k \in 1..Len(firsts) |->
     LET mine == {j \in 1..Len(ps) : same(firsts[k], j)} IN
     ps[CHOOSE j \in mine : \A i \in mine : i <= j]]
Key(ev) == [start |-> ev.start, ps |-> Settled(ev.ps)]
Kinds(ps) == [i \in 1..Len(ps) |-> <<ps[i].dim, ps[i].kind>>]
Bad(ev) ==
  CASE ev.op = "crash" -> {"*.crash"}
    [] ev.op = "name" ->
       LET want == NameWith(ev.before, ev.p)
           key == Key(ev)
           like == {a \in asked : SameName(a.key.start, key.start) /\ Kinds(a.key.ps) = Kinds(key.ps)}
           clash == {a \in like : SameName(a.name, ev.after) /\ a.key.ps # key.ps}
           other == {a \in like : a.key.ps = key.ps /\ ~SameName(a.name, ev.after)} IN
       IF ~Named(ev.before, ev.p.dim) \/ ~ev.good THEN {}
       ELSE IF ev.p.val = "none" THEN (IF ev.ok THEN {"C21.value_missing"} ELSE {})
       ELSE IF ~ev.ok THEN {"C21.name_failed"}
       ELSE (IF SameName(want, ev.after) THEN {} ELSE {"C21.name"})
            \cup (IF clash # {} THEN {"C21.same_name_twice"} ELSE {})
            \cup (IF other # {} THEN {"C21.two_names"} ELSE {})
            \cup (IF ev.whole THEN {} ELSE {"C21.not_a_file"})
    [] ev.op = "load" ->
       LET want == AtOf(ev.sp, ev.base, ev.ps) IN
       IF ~HasFile(files, ev.sp, ev.base, ev.ps)
       THEN IF ev.ok THEN {"C21.loads_another"} ELSE {}
       ELSE IF ~ev.ok THEN {"C21.load_failed"}
       ELSE (IF SameName(ev.after, want) THEN {} ELSE {"C21.loaded_from"})
            \cup (IF RCloseSeq(ev.cells, Loaded(files, ev.sp, ev.base, ev.ps), "1e-9", "1e-12")
                  THEN {} ELSE {"C21.loaded"})
            \cup (IF REq(ev.dec, ev.sp.dec) THEN {} ELSE {"C21.loaded_decays"})
            \cup (IF ev.kept THEN {} ELSE {"C21.load_changes_spectrum"})
    [] ev.op = "create" -> IF ev.ok THEN {} ELSE {"C21.fit_failed"}
    [] ev.op = "set_dir" -> IF ev.ok = ev.good THEN {} ELSE {"C21.directory"}
    [] ev.op = "eval" ->
       IF ~fit.here THEN {}
       ELSE IF ~AllHere(ev.ps) \/ ~SigHere(ev.ps) THEN (IF ev.ok THEN {"C21.fit_uses_another"} ELSE {})
       ELSE IF ~ev.ok THEN {"C21.fit_failed"}
       ELSE IF RCloseSeq(ev.cells, Expected(ev), "1e-9", "1e-12") THEN {} ELSE {"C21.fit_expectation"}
    [] ev.op \in {"new", "store"} -> {}
TInit == l = 1 /\ files = {} /\ asked = {} /\ fit = NoFit
TNext ==
  /\ l <= Len(Trace)
  /\ LET ev == Trace[l] IN
     /\ \A c \in Bad(ev) : PrintT(<<"BAD", l, c>>)
     /\ files' = CASE ev.op \in {"new", "crash"} -> {}
                   [] ev.op = "store" ->
                      IF ev.ok THEN Clean(files, ev.before) \cup
                             {[name |-> ev.before, cells |-> ev.cells, dec |-> ev.dec,
                              below |-> ev.below, fine |-> ev.fine]}
                      ELSE files
                   [] OTHER -> files
     /\ asked' = CASE ev.op \in {"new", "crash"} -> {}
                   [] ev.op = "name" /\ ev.ok /\ ev.good /\ Named(ev.before, ev.p.dim) ->
                      asked \cup {[name |-> ev.after, key |-> Key(ev)]}
                   [] OTHER -> asked
     /\ fit' = CASE ev.op \in {"new", "crash"} -> NoFit
                 [] ev.op = "create" ->
                    IF ev.ok THEN [here |-> TRUE, floats |-> ev.floats, signal |-> ev.signal, base |-> ev.base]
                    ELSE NoFit
                 [] ev.op = "set_dir" /\ ev.ok /\ fit.here -> [fit EXCEPT !.base = ev.base]
                 [] OTHER -> fit
  /\ l' = l + 1
=============================================================================
