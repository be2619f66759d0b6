------------------------------ MODULE MC_Plots ------------------------------
(* Every kind of plot of small spectra, fit results and limit results.       *)
EXTENDS Plots, TLC, Json
CONSTANTS MaxOps, Cells
VARIABLES sps, fit, lim, shown, hist
vars == <<sps, fit, lim, shown, hist>>
View == <<sps, fit, lim, shown, Len(hist)>>

Ax == << [n |-> "energy_mc", lo |-> "0", hi |-> "2", b |-> 2],
         [n |-> "radial3_mc", lo |-> "1", hi |-> "4", b |-> 3] >>
Sp(name, c) == [axes |-> Ax, shape |-> <<2, 3>>, data |-> c, name |-> name, label |-> ""]
FitOf(c) == [names |-> <<"rate_0", "scale_1">>, vals |-> <<<<"1", "2">>, <<"3", "4">>>>, ss |-> <<2>>,
             pb |-> FALSE, stats |-> SubSeq(c, 1, 4), pens |-> <<"1", "2", "4", "8">>, best |-> <<"1", "4">>]
LimOf(c) == [names |-> <<"a">>, scales |-> <<"1", "2">>, stats |-> <<<<c[1]>>, <<c[2]>>>>,
             pens |-> <<<<"1", "2">>>>, bests |-> <<<<c[3], c[4]>>>>, prior |-> <<"1">>, sigma |-> <<"2">>]
Six(x) == <<x, "1", "0", "2", x, "5">>
Init == /\ \E x \in Cells : /\ sps = <<Sp("A", Six(x)), Sp("B", <<"1", "0", x, "3", "0", "2">>)>>
                            /\ fit = FitOf(Six(x)) /\ lim = LimOf(Six(x))
        /\ shown = <<>> /\ hist = <<>>

Dims == {"energy_mc", "radial3_mc"}
Blank == [op |-> "", i |-> 0, d1 |-> "", d2 |-> "", items |-> <<>>, lim |-> -1, calc |-> <<>>,
          p1 |-> 0, p2 |-> 1, fix |-> <<0, 0>>, best |-> FALSE, graphical |-> FALSE, name |-> ""]
Item(i, t) == [i |-> i, type |-> t, label |-> ""]
Draws ==
  {[Blank EXCEPT !.op = o, !.i = i, !.d1 = d] : o \in {"projection", "root_projection"}, i \in {0, 1}, d \in Dims}
  \cup {[Blank EXCEPT !.op = o, !.d1 = d, !.d2 = e] : o \in {"surface", "root_surface"}, d \in Dims, e \in Dims}
  \cup {[Blank EXCEPT !.op = o, !.d1 = d, !.items = <<Item(0, t), Item(1, u)>>, !.lim = k] :
         o \in {"spectral", "root_spectral"}, d \in Dims, t \in {"background", "signal"},
         u \in {"background", "signal"}, k \in {-1, 1}}
  \cup {[Blank EXCEPT !.op = o, !.p1 = p, !.p2 = 1 - p] : o \in {"raw_vs_pars", "full_vs_pars"}, p \in {0, 1}}
  \cup {[Blank EXCEPT !.op = o] : o \in {"stats_vs_scale", "best_vs_scale", "sigmas_vs_scale", "pen_vs_scale"}}
Sensible(d) == d.op \in {"surface", "root_surface"} => d.d1 # d.d2

\* what is shown: a sequence of cell sequences
Shows(d) ==
  LET its == [k \in 1..Len(d.items) |-> <<d.items[k].i + 1, d.items[k].type, "">>] IN
  CASE d.op \in {"projection", "root_projection"} -> <<ProjectionPlot(sps[d.i + 1], d.d1).cells>>
    [] d.op \in {"surface", "root_surface"} -> <<SurfacePlot(sps[1], d.d1, d.d2).cells>>
    [] d.op \in {"spectral", "root_spectral"} ->
         LET w == SpectralPlot(sps, its, d.d1, d.lim + 1) IN [k \in 1..Len(w) |-> w[k][2]]
    [] d.op \in {"raw_vs_pars", "full_vs_pars"} ->
         <<OverPars(fit, d.p1 + 1, d.p2 + 1, d.fix, d.op = "full_vs_pars")>>
    [] d.op = "stats_vs_scale" -> <<StatsPlot(lim).y>>
    [] d.op = "best_vs_scale" -> <<BestPlot(lim, 1).y>>
    [] d.op = "sigmas_vs_scale" -> <<SigmasPlot(lim, 1).y>>
    [] OTHER -> <<PenaltyPlot(lim, 1).y>>
Draw(d) == /\ Sensible(d)
           /\ shown' = <<d, Shows(d)>>
           /\ hist' = Append(hist, d)
           /\ UNCHANGED <<sps, fit, lim>>
Double == /\ sps' = [sps EXCEPT ![1].data = RScaleSeq("2", @)]
          /\ hist' = Append(hist, [Blank EXCEPT !.op = "scale"])
          /\ shown' = <<>> /\ UNCHANGED <<fit, lim>>
Next == /\ Len(hist) < MaxOps
        /\ \/ \E d \in Draws : Draw(d)
           \/ Double
Created == << [op |-> "spectrum", axes |-> Ax, dec |-> "10", name |-> "A", label |-> "", cells |-> sps[1].data],
              [op |-> "spectrum", axes |-> Ax, dec |-> "10", name |-> "B", label |-> "", cells |-> sps[2].data],
              [op |-> "fit", table |-> fit.stats, ptable |-> fit.pens, best |-> <<0, 1>>,
               grid |-> [ss |-> fit.ss, pb |-> FALSE, np |-> TRUE, pars |->
                  <<[kind |-> "rate", lo |-> "1", hi |-> "2", bins |-> 2, prior |-> "1", sigma |-> "2", mode |-> "linear"],
                    [kind |-> "scale", lo |-> "3", hi |-> "4", bins |-> 2, prior |-> "3", sigma |-> "2", mode |-> "linear"]>>]],
              [op |-> "limit", ns |-> 2, wide |-> 0, pars |-> <<[prior |-> "1", sigma |-> "2"]>>,
               stats |-> <<lim.stats[1][1], "0", "0", lim.stats[2][1], "0", "0">>,
               pens |-> lim.pens[1], bests |-> lim.bests[1]] >>
\* behaviours are printed in full; spectra are doubled in place
Replay == Created \o [k \in 1..Len(hist') |->
            IF hist'[k].op = "scale" THEN [op |-> "scale", i |-> 0, to |-> "20"] ELSE hist'[k]]
NextE == /\ Next
         /\ (Len(hist') = MaxOps /\ shown' # <<>> =>
               PrintT(ToJson(Replay)))

Sum(s) == RSum(s)
TotalsShown ==
  shown # <<>> =>
    LET d == shown[1] v == shown[2] IN
    CASE d.op \in {"projection", "root_projection"} -> REq(Sum(v[1]), Sum(sps[d.i + 1].data))
      [] d.op \in {"surface", "root_surface"} -> REq(Sum(v[1]), Sum(sps[1].data))
      [] d.op \in {"spectral", "root_spectral"} ->
           /\ RCloseSeq(v[4], RAddSeq(v[1], v[2]), "0", "0")      \* everything
           /\ REq(Sum(v[4]), RAdd(Sum(sps[1].data), Sum(sps[2].data)))
           /\ RLe(Sum(v[3]), Sum(v[4]))
           /\ (d.items[1].type = d.items[2].type =>
                 Sum(v[3]) = IF d.items[1].type = "background" THEN Sum(v[4]) ELSE "0")
      [] d.op = "raw_vs_pars" -> REq(Sum(v[1]), Sum(fit.stats))
      [] d.op = "full_vs_pars" -> REq(Sum(v[1]), RAdd(Sum(fit.stats), Sum(fit.pens)))
      [] OTHER -> Len(v[1]) = Len(lim.scales)
TwoWays ==
  \A i \in {1, 2} :
    LET a == Surfaced(sps[i], "energy_mc", "radial3_mc")
        b == Surfaced(sps[i], "radial3_mc", "energy_mc") IN
    Turned(3, 2, a) = b /\ Turned(2, 3, b) = a
FitTwoWays ==
  \A f \in BOOLEAN : LET a == OverPars(fit, 1, 2, <<0, 0>>, f) b == OverPars(fit, 2, 1, <<0, 0>>, f) IN
    Turned(2, 2, a) = b
=============================================================================
