------------------------------ MODULE MC_Events ------------------------------
(* Design check of the filling rules.  Decays are simulated one by one, with *)
(* any number of triggers, reconstructed or not, inside or outside, and      *)
(* written to a ROOT file and to an ntuple; files fill spectra.  Behaviours  *)
(* are replayed on the real code.                                            *)
EXTENDS Events, TLC, Json
CONSTANTS MaxDecays, AxesSet, FvSet, Exts, Decays
VARIABLES file, axes, o, done, left, hist
View == <<file, axes, o, done, left>>

Near == <<"1000", "-1000", "500">>       \* 1500 mm from the centre
Far  == <<"0", "3000", "-4000">>         \* 5000 mm
Nowhere == <<"-99999", "-99999", "-99999">>
\* a decay: true position, energy and triggers (each a reconstructed
\* position, or Nowhere)
Decay(p, e, ts) == [p |-> p, e |-> e, ts |-> ts]
FewDecays == {Decay(Near, "2.5", <<>>), Decay(Near, "2.5", <<Near>>), Decay(Near, "1.25", <<Nowhere>>),
              Decay(Far, "2.5", <<Near>>), Decay(Near, "2.5", <<Far>>), Decay(Near, "7", <<Near>>),
              Decay(Near, "1.25", <<Near, Near>>), Decay(Far, "2.5", <<Nowhere, Far>>)}
AxE(n) == [n |-> n, lo |-> "0", hi |-> "5", b |-> 4]
AxR(n) == [n |-> n, lo |-> "0", hi |-> "6000", b |-> 2]
AxZ(n) == [n |-> n, lo |-> "-1", hi |-> "1", b |-> 2]
Few == {<<AxE("energy_mc")>>, <<AxE("energy_reco"), AxR("radial_reco")>>,
        <<AxE("energy_truth"), AxZ("zradial3_reco")>>, <<AxR("radial_mc")>>}

Ev(d, t) == LET p == d.ts[t] IN
  IF p = Nowhere THEN [fit |-> FALSE, e |-> [has |-> FALSE, ok |-> FALSE, v |-> "0"],
                      p |-> [has |-> FALSE, ok |-> FALSE, v |-> Nowhere]]
  ELSE [fit |-> TRUE, e |-> [has |-> TRUE, ok |-> TRUE, v |-> d.e], p |-> [has |-> TRUE, ok |-> TRUE, v |-> p]]
AsEntry(d) == [parts |-> <<d.p>>, quenched |-> d.e, edep |-> d.e,
               evs |-> [t \in 1..Len(d.ts) |-> Ev(d, t)]]
Row(d, i, p) ==
  [mc |-> 1, evIndex |-> i, scintFit |-> IF p = Nowhere THEN 0 ELSE 1,
   energy |-> IF p = Nowhere THEN "-99999" ELSE d.e, pos |-> IF p = Nowhere THEN Nowhere ELSE p,
   mcPos |-> d.p, mcEdep |-> d.e, mcEdepQuenched |-> d.e]
AsRows(d) == IF d.ts = <<>> THEN <<Row(d, -1, Nowhere)>>
             ELSE [t \in 1..Len(d.ts) |-> Row(d, t - 1, d.ts[t])]
RECURSIVE Rows(_)
Rows(ds) == IF ds = <<>> THEN <<>> ELSE AsRows(Head(ds)) \o Rows(Tail(ds))
Root(ds) == [kind |-> "root", events |-> [i \in 1..Len(ds) |-> AsEntry(ds[i])]]
Ntuple(ds) == [kind |-> "ntuple", events |-> Rows(ds)]
AsFile(kind, ds) == IF kind = "root" THEN Root(ds) ELSE Ntuple(ds)

Opts == [fv : FvSet, ext : Exts, outer : {"none", "3000"}, bipo : BOOLEAN]
Empty == NewSpectrum(axes, 0)
Init == /\ axes \in AxesSet /\ o \in Opts /\ ~FileRejected(NewSpectrum(axes, 0), o)
        /\ (o.outer # "none" => \E k \in 1..Len(axes) : SStartsWith(axes[k].n, "zradial3"))
        /\ file = <<>> /\ done = <<>> /\ left = MaxDecays /\ hist = <<>>
Simulate == \E d \in Decays :
  /\ left > 0 /\ left' = left - 1 /\ file' = Append(file, d)
  /\ UNCHANGED <<axes, o, done, hist>>
Close(kind) ==
  /\ file # <<>> \/ left = 0
  /\ Len(hist) < 2
  /\ done' = done \o file /\ file' = <<>>
  /\ hist' = Append(hist, [op |-> "fill", i |-> IF hist = <<>> THEN 0 ELSE 1,
                           axes |-> IF hist = <<>> THEN axes ELSE <<>>,
                           file |-> AsFile(kind, file), o |-> o, name |-> "s", config |-> "object",
                           plain |-> FALSE])
  /\ UNCHANGED <<axes, o, left>>
Next == Simulate \/ \E kind \in {"root", "ntuple"} : Close(kind)
NextE == Next /\ (left' = 0 /\ file' = <<>> /\ Len(hist') > Len(hist) => PrintT(ToJson(hist')))
-----------------------------------------------------------------------------
Clear(f) == CandsClear(Candidates(Empty, f, o))
Made(f) == FillFile(Empty, f, o)
Asks(reco) == \E k \in 1..Len(axes) : IsReco(axes[k].n) = reco
\* the two formats hold the same: always for what is reconstructed, or one
\* trigger at a time.  (True energies of external events need a trigger in the
\* one and a reconstructed trigger in the other.)
FormatsAgree ==
  (Clear(Root(file)) /\ Clear(Ntuple(file))
   /\ (Asks(TRUE) \/ ~o.ext \/ o.fv # "none")
   /\ (Asks(TRUE) \/ o.bipo \/ \A i \in 1..Len(file) : Len(file[i].ts) < 2))
  => Made(Root(file)).data = Made(Ntuple(file)).data
\* every counted event has weight one
CountsAll == \A f \in {Root(file), Ntuple(file)} :
  Clear(f) => REq(Total(Made(f)), Made(f).raw)
\* files add up
FilesAdd == \A n \in 0..Len(file) :
  LET a == SubSeq(file, 1, n) b == SubSeq(file, n + 1, Len(file)) IN
  /\ Clear(Root(file)) => FillFile(Made(Root(a)), Root(b), o) = Made(Root(file))
  /\ FillFile(Made(Ntuple(a)), Ntuple(b), o) = Made(Ntuple(file))
\* cuts only take away
Fewer(s, t) == \A i \in 1..Len(s.data) : RLe(s.data[i], t.data[i])
CutsRemove == \A f \in {Root(file), Ntuple(file)} :
  LET no(p) == FillFile(Empty, f, p) IN
  Clear(f) =>
    /\ CandsClear(Candidates(Empty, f, [o EXCEPT !.fv = "none"])) =>
         Fewer(no(o), no([o EXCEPT !.fv = "none"]))
    /\ CandsClear(Candidates(Empty, f, [o EXCEPT !.bipo = FALSE])) =>
         Fewer(no(o), no([o EXCEPT !.bipo = FALSE]))
\* nothing behind a BiPo cut has a second trigger
BiPoSingle == o.bipo =>
  RLe(Made(Ntuple(file)).raw, Cardinality({i \in 1..Len(file) : Len(file[i].ts) = 1}))
=============================================================================
