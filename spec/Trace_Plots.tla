----------------------------- MODULE Trace_Plots -----------------------------
(* Judges recorded plots.                                                    *)
EXTENDS Plots, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VT_TRACE)
VARIABLES l, st

Near(a, b) == Len(a) = Len(b) /\ RCloseSeq(a, b, "1e-9", "1e-9")
NearAll(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i])
Finite(s) == \A i \in 1..Len(s) : RIsFinite(s[i])
SameSp(a, b) ==
  /\ a.name = b.name /\ a.label = b.label /\ a.shape = b.shape /\ Len(a.axes) = Len(b.axes)
  /\ \A k \in 1..Len(a.axes) : a.axes[k].n = b.axes[k].n /\ a.axes[k].b = b.axes[k].b
       /\ REq(a.axes[k].lo, b.axes[k].lo) /\ REq(a.axes[k].hi, b.axes[k].hi)
  /\ RCloseSeq(a.data, b.data, "0", "0") /\ REq(a.dec, b.dec)
Exact(a, b) == Len(a) = Len(b) /\ RCloseSeq(a, b, "0", "0")
ExactAll(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Exact(a[i], b[i])
SameFit(a, b) == /\ a.names = b.names /\ a.pb = b.pb /\ a.ss = b.ss /\ ExactAll(a.vals, b.vals)
                 /\ Exact(a.stats, b.stats) /\ Exact(a.pens, b.pens) /\ Exact(a.best, b.best)
SameLimit(a, b) == /\ a.names = b.names /\ Exact(a.scales, b.scales) /\ ExactAll(a.stats, b.stats)
                   /\ ExactAll(a.pens, b.pens) /\ ExactAll(a.bests, b.bests)
                   /\ Exact(a.prior, b.prior) /\ a.sigma = b.sigma
Unchanged(a, b) ==
  /\ Len(a.sps) = Len(b.sps) /\ \A i \in 1..Len(a.sps) : SameSp(a.sps[i], b.sps[i])
  /\ SameFit(a.fit, b.fit) /\ SameLimit(a.lim, b.lim)

OneHist(ev, want, t, edges) ==
  LET hs == ev.pic.hists IN
  IF Len(hs) = 1 /\ hs[1].stray = 0 /\ Near(hs[1].cells, want.cells)
     /\ Len(hs[1].edges) = Len(want.edges)
     /\ (IF edges THEN NearAll(hs[1].edges, want.edges)
         ELSE \A k \in 1..Len(want.edges) : Len(hs[1].edges[k]) = Len(want.edges[k]))
     /\ (ev.name # "" /\ ev.op \in {"root_projection", "root_surface", "chi_per_bin"}
           => hs[1].title = ev.name)
  THEN {} ELSE {t}
OneGraph(ev, want, t) ==
  LET gs == ev.pic.graphs IN
  IF Len(gs) = 1 /\ Near(gs[1].x, want.x) /\ Near(gs[1].y, want.y) THEN {} ELSE {t}
Counted(n) == [k \in 1..(n + 1) |-> "0"]       \* n bins, wherever they are

\* a mesh: the axis labels say which axis is drawn along x
MeshOk(m, sp, d1, d2) ==
  /\ {m.xl, m.yl} = {d1, d2}
  /\ LET ax == AxisOf(sp, m.xl) ay == AxisOf(sp, m.yl)
         want == Surfaced(sp, m.yl, m.xl) IN
     /\ Len(m.c) = ay.b
     /\ \A r \in 1..ay.b : Near(m.c[r], SubSeq(want, (r - 1) * ax.b + 1, r * ax.b))
     /\ Len(m.x) = ay.b /\ \A r \in 1..ay.b : Near(m.x[r], CentresOf(ax))
     /\ Len(m.y) = ay.b /\ \A r \in 1..ay.b :
          Near(m.y[r], [k \in 1..ax.b |-> CentresOf(ay)[r]])
\* as many drawn as wanted, and nothing else
Matched(n, m, Same(_, _)) ==
  /\ \A i \in 1..n : \E j \in 1..m : Same(i, j)
  /\ \A j \in 1..m : \E i \in 1..n : Same(i, j)
  /\ n = m
BadSpectral(ev, root) ==
  LET d == IF root THEN SSplit(ev.d1, "_")[1] ELSE ev.d1
      sps == st.sps its == ev.items
      all == \A k \in 1..Len(its) : HasOne(sps[its[k][1]], d)
      can == Alike(sps, its, d)
      fits == /\ ev.lim = 0 \/ HasOne(sps[ev.lim], d)
              /\ (root \/ Len(ev.calc) \in {0, AxisOf(sps[its[1][1]], d).b})
              /\ (ev.lim = 0 \/ SameAxis(AxisOf(sps[ev.lim], d), AxisOf(sps[its[1][1]], d)))
      a == AxisOf(sps[its[1][1]], d)
      want == SpectralPlot(sps, its, d, ev.lim)
              \o (IF ev.calc = <<>> \/ root THEN <<>> ELSE << <<"", ev.calc>> >>)
      got == ev.pic.hists
      Same(i, j) == /\ (root \/ got[j].label = want[i][1]) /\ Near(got[j].cells, want[i][2])
                    /\ NearAll(got[j].edges, <<EdgesOf(a)>>) /\ got[j].stray = 0
      bg == RForce(Backgrounds(sps, its, d))
      sq == [k \in 1..Len(bg) |-> RSqrt(bg[k])] IN
  IF ~all THEN {}
  ELSE IF ~can THEN IF ev.ok THEN {"C27.unlike_axes_accepted"}
               ELSE IF ev.err = "AssertionError" THEN {} ELSE {"C27.unlike_axes_failed"}
  ELSE IF ~fits \/ (\E i \in 1..Len(bg) : RLt(bg[i], "0")) THEN {}
  ELSE IF ~ev.ok THEN {"C27.failed"}
  ELSE (IF Matched(Len(want), Len(got), Same) THEN {} ELSE {"C27.spectral"})
       \cup (IF root THEN {}
             ELSE IF \E b \in 1..Len(ev.pic.bands) :
                       /\ Near(ev.pic.bands[b].x, CentresOf(a))
                       /\ Near(ev.pic.bands[b].low, [k \in 1..Len(bg) |-> RSub(bg[k], sq[k])])
                       /\ Near(ev.pic.bands[b].high, RAddSeq(bg, sq))
                  THEN {} ELSE {"C27.error_band"})

FileOk(fs, n, want, end) ==
  \E i \in 1..Len(fs) : /\ SStartsWith(fs[i].n, n) /\ SEndsWith(fs[i].n, end)
                        /\ Near(fs[i].x, want.x) /\ Near(fs[i].y, want.y)
BadSummary(ev) ==
  LET lim == st.lim P == 1..Len(lim.names) fs == ev.pic.files IN
  IF \E p \in P : lim.sigma[p] = "none" THEN {}
  ELSE IF ~ev.ok THEN {"C27.summary_failed"}
  ELSE IF /\ FileOk(fs, "fd5", StatsPlot(lim), "_stat.png")
          /\ \A p \in P : /\ FileOk(fs, "fd5", BestPlot(lim, p), "best_fit.png")
                          /\ FileOk(fs, "fd5", SigmasPlot(lim, p), "sigma_best_fit.png")
                          /\ FileOk(fs, "fd5", PenaltyPlot(lim, p), "penalty_term.png")
       THEN {} ELSE {"C27.summary"}

Drawable(ev) ==
  CASE ev.op \in {"raw_vs_par", "raw_vs_pars", "full_vs_pars"} -> ~st.fit.pb
    [] ev.op = "sigmas_vs_scale" -> st.lim.sigma[ev.p1] # "none"
    [] OTHER -> TRUE
BadPic(ev) ==
  LET sp == st.sps[ev.i] g == st.fit lim == st.lim IN
  CASE ev.op \in {"projection", "root_projection"} ->
         OneHist(ev, ProjectionPlot(sp, ev.d1), "C27.projection", TRUE)
    [] ev.op = "root_surface" -> OneHist(ev, SurfacePlot(sp, ev.d1, ev.d2), "C27.surface", TRUE)
    [] ev.op = "surface" ->
         IF Len(ev.pic.mesh) = 1 /\ MeshOk(ev.pic.mesh[1], sp, ev.d1, ev.d2) THEN {} ELSE {"C27.surface"}
    [] ev.op = "raw_vs_par" -> OneGraph(ev, Graph(g.vals[1], RawTotals(g)), "C27.raw_statistics")
    [] ev.op = "full_vs_par" -> OneGraph(ev, Graph(g.vals[1], Fulls(g)), "C27.full_statistics")
    [] ev.op = "pen_vs_par" -> OneGraph(ev, Graph(g.vals[1], g.pens), "C27.penalty_terms")
    [] ev.op \in {"raw_vs_pars", "full_vs_pars"} ->
         OneHist(ev, [edges |-> <<Counted(Len(g.vals[ev.p1])), Counted(Len(g.vals[ev.p2]))>>,
                      cells |-> OverPars(g, ev.p1, ev.p2, ev.fix, ev.op = "full_vs_pars")],
                 "C27.statistics_over_parameters", FALSE)
    [] ev.op = "per_bin" ->
         OneHist(ev, [edges |-> IF ev.y = 0 THEN <<EdgesOf([lo |-> "0", hi |-> "1", b |-> g.ss[ev.x]])>>
                                ELSE <<EdgesOf([lo |-> "0", hi |-> "1", b |-> g.ss[ev.x]]),
                                       EdgesOf([lo |-> "0", hi |-> "1", b |-> g.ss[ev.y]])>>,
                      cells |-> BinStats(g, IF ev.best THEN BestIdx(g) ELSE ev.fix, ev.x, ev.y)],
                 "C27.per_bin", TRUE)
    [] ev.op = "stats_vs_scale" -> OneGraph(ev, StatsPlot(lim), "C27.limit_statistics")
    [] ev.op = "best_vs_scale" -> OneGraph(ev, BestPlot(lim, ev.p1), "C27.limit_best_fits")
    [] ev.op = "sigmas_vs_scale" -> OneGraph(ev, SigmasPlot(lim, ev.p1), "C27.limit_sigmas")
    [] ev.op = "pen_vs_scale" -> OneGraph(ev, PenaltyPlot(lim, ev.p1), "C27.limit_penalties")
    [] ev.op = "chi_per_bin" ->
         OneHist(ev, [edges |-> <<EdgesOf([lo |-> ev.lo, hi |-> ev.hi, b |-> Len(ev.calc)])>>,
                      cells |-> ev.calc], "C27.chi_squared", TRUE)
    [] OTHER -> {}
\* on the screen when asked for, and only then
Displays == {"projection", "surface", "spectral", "root_projection", "root_surface",
             "raw_vs_par", "full_vs_par", "pen_vs_par", "raw_vs_pars", "full_vs_pars",
             "per_bin", "chi_per_bin", "stats_vs_scale", "best_vs_scale",
             "sigmas_vs_scale", "pen_vs_scale"}
BadScreen(ev) ==
  IF ~ev.ok \/ ev.op \notin Displays THEN {}
  ELSE IF (ev.graphical /\ ev.seen # <<>> /\ \A k \in 1..Len(ev.seen) : ev.seen[k] > 0)
          \/ (~ev.graphical /\ ev.seen = <<>>)
       THEN {} ELSE {"C27.displayed"}
Made == {"spectrum", "fit", "limit", "scale"}
Bad(ev) ==
  IF ev.op = "crash" THEN {"*.crash"}
  ELSE IF ev.op \in Made THEN {}
  ELSE (IF Unchanged(st, ev.st) THEN {} ELSE {"C27.changed_by_drawing"})
       \cup BadScreen(ev)
       \cup (IF ev.op = "spectral" THEN BadSpectral(ev, FALSE)
             ELSE IF ev.op = "root_spectral" THEN BadSpectral(ev, TRUE)
             ELSE IF ev.op = "summary" THEN BadSummary(ev)
             ELSE IF ~Drawable(ev) THEN {}
             ELSE IF ~ev.ok THEN {"C27.failed"} ELSE BadPic(ev))

TInit == l = 1 /\ st = [sps |-> <<>>]
TNext == /\ l <= Len(Trace)
         /\ \A c \in Bad(Trace[l]) : PrintT(<<"BAD", l, c>>)
         /\ l' = l + 1
         /\ st' = IF Trace[l].op = "crash" THEN st ELSE Trace[l].st
=============================================================================
