------------------------------- MODULE Scripts -------------------------------
(* The command line scripts (echidna/scripts): what each reads, and what it  *)
(* writes where.  Property C26.                                              *)
(*                                                                           *)
(* Files is a sequence of [path, sp].  A command is [script, a], where a     *)
(* holds every argument ("none" or <<>> if not given):                       *)
(*   ins   paths read                out   path to write                     *)
(*   bins  rebin                     pars, low, up   shrink                  *)
(*   par, val  axis and value (scale, shift)                *)
(*   res, ly, gaus, method  smearing  dest, dirs  destination, directories   *)
(*   events, o, axes, name   event files, options, dimensions, spectrum name *)
EXTENDS Convolve, Events

Has(fs, p) == \E i \in 1..Len(fs) : fs[i].path = p
At(fs, p) == fs[CHOOSE i \in 1..Len(fs) : fs[i].path = p].sp
Put(fs, p, s) ==
  IF Has(fs, p) THEN [i \in 1..Len(fs) |-> IF fs[i].path = p THEN [path |-> p, sp |-> s] ELSE fs[i]]
  ELSE Append(fs, [path |-> p, sp |-> s])

\* "a/b/c.d.hdf5": c.d.hdf5, a/b/ and c.d
BaseOf(p) == LET w == SSplit(p, "/") IN w[Len(w)]
DirOf(p) == SSub(p, 0, SLen(p) - SLen(BaseOf(p)))
StemOf(b) == LET w == SSplit(b, ".") IN
  IF Len(w) = 1 THEN b ELSE SSub(b, 0, SLen(b) - SLen(w[Len(w)]) - 1)
Under(d, f) == IF d \in {"", "."} THEN f ELSE SCat(d, SCat("/", f))
Beside(p, suffix) == SCat(DirOf(p), SCat(StemOf(BaseOf(p)), SCat(suffix, ".hdf5")))
In(dest, p, suffix) ==
  IF dest = "none" THEN Beside(p, suffix) ELSE Under(dest, SCat(StemOf(BaseOf(p)), SCat(suffix, ".hdf5")))

OutPath(c) ==
  LET a == c.a p == a.ins[1] IN
  CASE c.script = "combine_hdf5" -> "combined.hdf5"
    [] c.script = "rebin" -> IF a.out # "none" THEN a.out ELSE Beside(p, "_rebin")
    [] c.script = "dump_shrink" -> IF a.out # "none" THEN a.out ELSE Beside(p, "_shrunk")
    [] c.script = "dump_shifted" -> Beside(p, "_shifted")
    [] c.script = "dump_scaled" -> In(a.dest, p, SCat("_", SCat(a.val, "sc")))
    [] c.script = "dump_smeared" -> Beside(p, "_smeared")
    [] c.script = "dump_smeared_energy" ->
         In(a.dest, p, SCat("_", IF a.res # "none" THEN SCat(a.res, "rs")
                                     ELSE SCat(IF a.ly = "none" THEN "200" ELSE a.ly, "ly")))
    [] c.script = "multi_ntuple_spectrum" -> Under(a.dest, SCat(a.name, ".hdf5"))
    [] OTHER -> Under(a.dest, SCat(BaseOf(p), ".hdf5"))

Fills == {"dump_spectra_root", "dump_spectra_ntuple", "multi_ntuple_spectrum"}
\* axes that a smearing script convolves, in order
Smears(c, sp) ==
  SelectSeq([k \in 1..Len(sp.axes) |-> k],
            LAMBDA k : \/ SContains(sp.axes[k].n, "energy")
                       \/ c.script = "dump_smeared" /\ SContains(sp.axes[k].n, "radial"))
Chosen(c) ==
  [kind |-> IF c.a.res # "none" THEN "res" ELSE "ly",
   res |-> IF c.a.res # "none" THEN c.a.res ELSE IF c.a.ly # "none" THEN c.a.ly ELSE "200",
   ns |-> "5", poisson |-> ~c.a.gaus]
SmearOf(c, sp, k) ==
  IF ~SContains(sp.axes[k].n, "energy")
  THEN [kind |-> "rad", res |-> "100", ns |-> "5", poisson |-> FALSE]
  ELSE Chosen(c)
RECURSIVE SmearAll(_, _, _)
SmearAll(c, sp, ks) ==
  IF ks = <<>> THEN sp
  ELSE SmearAll(c, Smeared(sp, Head(ks), SmearOf(c, sp, Head(ks))), Tail(ks))
SmearVague(c, sp, k) ==
  LET s == SmearOf(c, sp, k) ax == sp.axes[k] IN
  ReachUnclear(s, ax) \/ PhotonsUnclear(s, ax) \/ NoResponse(s, ax)

Asked(a) ==        \* bounds asked of dump_shrink
  [i \in 1..Len(a.low) |-> [n |-> a.pars[i], w |-> "low", v |-> a.low[i]]] \o
  [i \in 1..Len(a.up) |-> [n |-> a.pars[i], w |-> "high", v |-> a.up[i]]]
RECURSIVE AddAll(_, _, _)
AddAll(fs, s, ps) ==
  IF ps = <<>> THEN s ELSE AddAll(fs, Add(s, At(fs, Head(ps))), Tail(ps))
RECURSIVE FillFiles(_, _, _)
FillFiles(sp, evs, o) ==
  IF evs = <<>> THEN sp ELSE FillFiles(FillFile(sp, Head(evs), o), Tail(evs), o)

\* "no": nothing can come of it; "open": nothing is promised; "yes"
Verdict(fs, c) ==
  LET a == c.a
      sp == At(fs, a.ins[1])
      axis == CHOOSE k \in 1..Len(sp.axes) : sp.axes[k].n = a.par IN
  IF a.ins = <<>> THEN "no"
  ELSE IF c.script \in Fills THEN
    IF a.events = <<>> THEN "open" ELSE
    LET s == NewSpectrum(a.axes, 0) IN
    IF FileRejected(s, a.o) THEN "no"
    ELSE IF a.o.outer # "none" /\ ~\E k \in 1..Len(a.axes) : SStartsWith(a.axes[k].n, "radial3")
    THEN IF \E k \in 1..Len(a.axes) : SStartsWith(a.axes[k].n, "zradial3") THEN "open" ELSE "no"
    ELSE LET cs(i) == Candidates(s, a.events[i], a.o) IN
         IF \E i \in 1..Len(a.events) : CandsFail(cs(i)) THEN "no"
         ELSE IF \E i \in 1..Len(a.events) : ~CandsClear(cs(i)) THEN "open" ELSE "yes"
  ELSE IF \E i \in 1..Len(a.ins) : ~Has(fs, a.ins[i]) THEN "no"
  ELSE IF a.dest # "none" /\ a.dest \notin {a.dirs[i] : i \in 1..Len(a.dirs)} THEN "no"
  ELSE CASE c.script = "combine_hdf5" ->
              IF Len(a.ins) < 2 THEN "no"
              ELSE IF \E i \in 2..Len(a.ins) : ~AddAccepted(sp, At(fs, a.ins[i])) THEN "no"
              ELSE IF \E i \in 2..Len(a.ins) : ~AddDefined(sp, At(fs, a.ins[i])) THEN "open"
              ELSE "yes"
         [] c.script = "rebin" -> IF RebinAccepted(sp, a.bins) THEN "yes" ELSE "no"
         [] c.script = "dump_shrink" ->
              IF a.pars = <<>> \/ (a.low = <<>> /\ a.up = <<>>) THEN "no"
              ELSE IF \E b \in {a.low, a.up} : b # <<>> /\ Len(b) # Len(a.pars) THEN "no"
              ELSE IF Cardinality({a.pars[i] : i \in 1..Len(a.pars)}) < Len(a.pars) THEN "open"
              ELSE IF ShrinkRejected(sp, Asked(a)) THEN "no"
              ELSE IF ~ShrinkDefined(sp, Asked(a)) THEN "open" ELSE "yes"
         [] c.script \in {"dump_scaled", "dump_shifted"} ->
              IF a.par \notin AxisNames(sp) \/ a.val = "none" THEN "no"
              ELSE IF c.script = "dump_scaled" /\ ~RLt("0", a.val) THEN "no"
              ELSE IF sp.axes[axis].b < 4 THEN "open" ELSE "yes"
         [] OTHER ->
              IF a.method \notin {"weight", "random"} THEN "no"
              ELSE LET s == Chosen(c) IN
                   IF ResolutionOk(s.kind, s.res) THEN "yes" ELSE "no"

\* a list of event files is a run for each of them
Subs(c) ==
  IF c.script \in {"dump_spectra_root", "dump_spectra_ntuple"}
  THEN [i \in 1..Len(c.a.ins) |->
          [c EXCEPT !.a.ins = <<c.a.ins[i]>>, !.a.events = <<c.a.events[i]>>]]
  ELSE <<c>>

\* what is written, where the specification settles it bin by bin
Result(fs, c) ==
  LET a == c.a sp == At(fs, a.ins[1]) IN
  CASE c.script \in Fills -> FillFiles(NewSpectrum(a.axes, 0), a.events, a.o)
    [] c.script = "combine_hdf5" -> AddAll(fs, sp, Tail(a.ins))
    [] c.script = "rebin" -> Rebin(sp, a.bins)
    [] c.script = "dump_shrink" -> Shrink(sp, Asked(a))
    [] c.script = "dump_shifted" ->
         ShiftBins(sp, AxisNo(sp, a.par), Nearest(RDiv(a.val, Width(sp.axes[AxisNo(sp, a.par)]))))
    [] c.script = "dump_scaled" -> Moved(sp, AxisNo(sp, a.par), "scale", a.val, 3)
    [] OTHER -> SmearAll(c, sp, Smears(c, sp))

\* the files there are after the command, if nothing about it is left open
After(fs, c) ==
  IF Verdict(fs, c) = "yes" THEN Put(fs, OutPath(c), Result(fs, c)) ELSE fs
=============================================================================
