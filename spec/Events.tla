-------------------------------- MODULE Events -------------------------------
(* Filling spectra from simulated events (echidna/core/fill_spectrum.py and  *)
(* echidna/core/dsextract.py).  Property C23.                                *)
(*                                                                           *)
(* A ROOT file is a sequence of entries                                      *)
(*   [parts: positions of the MC particles, quenched, edep: energies,        *)
(*    evs: triggers [fit, e: [has, ok, v], p: [has, ok, v]]]                 *)
(* and an ntuple a sequence of rows                                          *)
(*   [mc, evIndex, scintFit, energy, pos, mcPos, mcEdep, mcEdepQuenched].    *)
(* What is asked of the events is x = [dim, fv, ext, outer, other]: fiducial *)
(* radius and outer radius ("none" if not given), whether the background is  *)
(* external, and whether the cut is on the other position than is usual      *)
(* (reconstructed for true dimensions, true for reconstructed ones).         *)
EXTENDS Spectrum

Energies == {"energy_mc", "energy_truth", "energy_reco"}
EventDims == Energies \cup {"radial_mc", "radial_reco", "radial3_mc", "radial3_reco",
                       "zradial3_mc", "zradial3_reco"}
IsReco(d) == SEndsWith(d, "_reco")
AvRadius == "5997"
Given(x, y) == IF x = "none" THEN y ELSE x
Mag(p) == RSqrt(RSum([i \in 1..3 |-> RMul(p[i], p[i])]))

\* external events have no true position inside the detector
XRejected(x) ==
  \/ x.dim \notin EventDims
  \/ x.ext /\ IF IsReco(x.dim) THEN x.other ELSE x.dim \notin Energies
CutOnReco(x) == IF IsReco(x.dim) THEN ~x.other ELSE x.other \/ x.ext

\* "yes", "no", "error", or "open" where nothing is promised
InRadius(p, r) ==
  IF RClose(Mag(p), r, "1e-9", "0") THEN "open" ELSE IF RLt(Mag(p), r) THEN "yes" ELSE "no"
Yes(b) == IF b THEN "yes" ELSE "no"
Both(a, b) == IF "no" \in {a, b} THEN (IF "error" \in {a, b} THEN "open" ELSE "no")
              ELSE IF "error" \in {a, b} THEN "error"
              ELSE IF "open" \in {a, b} THEN "open" ELSE "yes"

-----------------------------------------------------------------------------
(* One row of an ntuple.                                                     *)
RowCut(x, row) ==
  IF x.fv = "none" THEN "yes"
  ELSE IF CutOnReco(x) THEN IF row.scintFit = 1 THEN InRadius(row.pos, x.fv) ELSE "no"
  ELSE InRadius(row.mcPos, x.fv)
RowGood(x, row) ==
  IF IsReco(x.dim)
  THEN row.scintFit = 1 /\ (x.dim = "energy_reco" => RLt("0", row.energy))
  ELSE row.mc = 1 /\ (x.ext => row.scintFit = 1)
RowValid(x, row) == IF RowGood(x, row) THEN RowCut(x, row) ELSE "no"

Cube(p, x) == LET r == RDiv(Mag(p), Given(x.outer, AvRadius)) IN RMul(r, RMul(r, r))
Radial(p, x) ==
  CASE x.dim \in {"radial_mc", "radial_reco"} -> Mag(p)
    [] x.dim \in {"radial3_mc", "radial3_reco"} -> Cube(p, x)
    [] OTHER -> IF RLt(p[3], "0") THEN RNeg(Cube(p, x)) ELSE Cube(p, x)
RowValue(x, row) ==
  CASE x.dim = "energy_mc" -> row.mcEdepQuenched
    [] x.dim = "energy_truth" -> row.mcEdep
    [] x.dim = "energy_reco" -> row.energy
    [] IsReco(x.dim) -> Radial(row.pos, x)
    [] OTHER -> Radial(row.mcPos, x)

-----------------------------------------------------------------------------
(* One trigger of a ROOT entry (ev = 0: the entry without regard to any).    *)
HasPos(e) == e.fit /\ e.p.has /\ e.p.ok
HasEnergy(e) == e.fit /\ e.e.has /\ e.e.ok
TruePos(entry, r) == IF Len(entry.parts) = 0 THEN "open" ELSE InRadius(entry.parts[1], r)
RecoPos(e, r) == IF HasPos(e) THEN InRadius(e.p.v, r) ELSE "no"
RootCut(x, entry, ev) ==
  IF x.fv = "none" THEN "yes"
  ELSE IF ~CutOnReco(x) THEN TruePos(entry, x.fv)
  ELSE IF IsReco(x.dim) THEN RecoPos(entry.evs[ev], x.fv)
  ELSE IF Len(entry.evs) = 0 THEN "no"
  ELSE IF Len(entry.evs) > 1 THEN "error"       \* which position would it be?
  ELSE RecoPos(entry.evs[1], x.fv)
RootGood(x, entry, ev) ==
  IF x.dim = "energy_reco" THEN HasEnergy(entry.evs[ev])
  ELSE IF IsReco(x.dim) THEN HasPos(entry.evs[ev])
  ELSE Len(entry.parts) > 0 /\ (x.ext => Len(entry.evs) > 0)
RootValid(x, entry, ev) == IF RootGood(x, entry, ev) THEN RootCut(x, entry, ev) ELSE "no"
RootValue(x, entry, ev) ==
  CASE x.dim = "energy_mc" -> entry.quenched
    [] x.dim = "energy_truth" -> entry.edep
    [] x.dim = "energy_reco" -> entry.evs[ev].e.v
    [] IsReco(x.dim) -> Radial(entry.evs[ev].p.v, x)
    [] OTHER -> Radial(entry.parts[1], x)

-----------------------------------------------------------------------------
(* What a file adds: a sequence of [v: verdict, vals: values], one for each  *)
(* candidate.                                                                *)
RECURSIVE AllOf(_)
AllOf(vs) == IF vs = <<>> THEN "yes" ELSE Both(Head(vs), AllOf(Tail(vs)))
XsFor(axes, o) ==
  [k \in 1..Len(axes) |-> [dim |-> axes[k].n, fv |-> o.fv, ext |-> o.ext,
                           outer |-> o.outer, other |-> FALSE]]
RowCand(xs, row) ==
  LET v == AllOf([k \in 1..Len(xs) |-> RowValid(xs[k], row)]) IN
  [v |-> v, vals |-> IF v # "yes" THEN <<>>
                     ELSE [k \in 1..Len(xs) |-> [n |-> xs[k].dim, v |-> RowValue(xs[k], row)]]]
RootCand(xs, entry, ev) ==
  LET v == AllOf([k \in 1..Len(xs) |-> RootValid(xs[k], entry, ev)]) IN
  [v |-> v, vals |-> IF v # "yes" THEN <<>>
                     ELSE [k \in 1..Len(xs) |-> [n |-> xs[k].dim, v |-> RootValue(xs[k], entry, ev)]]]
\* with the BiPo cut, the first trigger counts if no other one follows
BiPoRow(rows, i) ==
  /\ rows[i].evIndex = 0
  /\ i = Len(rows) \/ rows[i + 1].evIndex < 1
RECURSIVE RowCands(_, _, _, _)
RowCands(xs, rows, bipo, i) ==
  IF i > Len(rows) THEN <<>>
  ELSE (IF ~bipo \/ BiPoRow(rows, i) THEN <<RowCand(xs, rows[i])>> ELSE <<>>)
       \o RowCands(xs, rows, bipo, i + 1)
\* one candidate for each trigger, or one for the entry if nothing
\* reconstructed is asked
PerTrigger(xs) == \E k \in 1..Len(xs) : IsReco(xs[k].dim)
RECURSIVE RootCands(_, _, _, _)
RootCands(xs, entries, bipo, i) ==
  IF i > Len(entries) THEN <<>>
  ELSE (IF bipo /\ Len(entries[i].evs) # 1 THEN <<>>
        ELSE IF PerTrigger(xs)
             THEN [e \in 1..Len(entries[i].evs) |-> RootCand(xs, entries[i], e)]
             ELSE <<RootCand(xs, entries[i], 0)>>)
       \o RootCands(xs, entries, bipo, i + 1)
Candidates(sp, file, o) ==
  LET xs == XsFor(sp.axes, o) IN
  IF file.kind = "root" THEN RootCands(xs, file.events, o.bipo, 1)
  ELSE RowCands(xs, file.events, o.bipo, 1)

FileRejected(sp, o) ==
  LET xs == XsFor(sp.axes, o) IN \E k \in 1..Len(xs) : XRejected(xs[k])
CandsClear(cs) == \A i \in 1..Len(cs) : cs[i].v \in {"yes", "no"}
CandsFail(cs) == \E i \in 1..Len(cs) : cs[i].v = "error"
\* those in range of the spectrum enter it with weight one
RECURSIVE FillAll(_, _)
FillAll(sp, cs) ==
  IF cs = <<>> THEN sp
  ELSE LET c == Head(cs)
           s == IF c.v = "yes" /\ FillAccepted(sp, c.vals)
                THEN [Fill(sp, c.vals, 1) EXCEPT !.raw = @ + 1] ELSE sp IN
       FillAll([s EXCEPT !.data = RForce(@)], Tail(cs))
FillFile(sp, file, o) ==
  LET s == FillAll(sp, Candidates(sp, file, o)) IN
  [s EXCEPT !.dec = RAdd(@, Len(file.events))]
=============================================================================
