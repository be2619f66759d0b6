------------------------------- MODULE Plots --------------------------------
(* What the plots of echidna/output/plot.py and plot_root.py show: the       *)
(* numbers recorded in a spectrum, in fit results or in limit results.       *)
(* Property C27.                                                             *)
(*                                                                           *)
(* spectrum  [axes: seq of [n, lo, hi, b], shape, data, name, label]         *)
(* fit       [names, vals, ss, pb, stats, pens, best]: see Grid.tla          *)
(* limit     [names, scales, stats, pens, bests, prior, sigma]: stats[s] is  *)
(*           the sequence of statistics at scale s; pens, bests and prior,   *)
(*           sigma are per parameter                                         *)
(* A histogram is [edges: one sequence per axis, cells: row-major].          *)
EXTENDS Grid

\* an axis by its name, or by the dimension it is an axis of
IsOf(a, n) == a.n = n \/ SStartsWith(a.n, SCat(n, "_"))
HasOne(sp, n) == \E k \in 1..Len(sp.axes) : IsOf(sp.axes[k], n)
NoOf(sp, n) == CHOOSE k \in 1..Len(sp.axes) : IsOf(sp.axes[k], n)
EdgesOf(a) == [k \in 1..(a.b + 1) |->
                 RAdd(a.lo, RMul(k - 1, RDiv(RSub(a.hi, a.lo), a.b)))]
CentresOf(a) == [k \in 1..a.b |->
                 RAdd(a.lo, RMul(RSub(k, "1/2"), RDiv(RSub(a.hi, a.lo), a.b)))]
Projected(sp, d) == Marginal(sp.shape, sp.data, {NoOf(sp, d)})
Turned(n1, n2, m) ==      \* n2 x n1 cells as n1 x n2
  [c \in 1..(n1 * n2) |-> LET i == (c - 1) \div n2 j == (c - 1) % n2 IN m[j * n1 + i + 1]]
Surfaced(sp, d1, d2) ==
  LET a == NoOf(sp, d1) b == NoOf(sp, d2)
      m == RForce(Marginal(sp.shape, sp.data, {a, b})) IN
  IF a < b THEN m ELSE Turned(sp.shape[a], sp.shape[b], m)

ProjectionPlot(sp, d) ==
  [edges |-> <<EdgesOf(sp.axes[NoOf(sp, d)])>>, cells |-> Projected(sp, d)]
SurfacePlot(sp, d1, d2) ==
  [edges |-> <<EdgesOf(sp.axes[NoOf(sp, d1)]), EdgesOf(sp.axes[NoOf(sp, d2)])>>,
   cells |-> Surfaced(sp, d1, d2)]

-----------------------------------------------------------------------------
(* Spectral plots: items is a sequence of <<spectrum, type, label>>.         *)
SameAxis(a, b) == REq(a.lo, b.lo) /\ REq(a.hi, b.hi) /\ a.b = b.b
AxisOf(sp, d) == sp.axes[NoOf(sp, d)]
Alike(sps, items, d) ==
  \A k \in 1..Len(items) : SameAxis(AxisOf(sps[items[k][1]], d), AxisOf(sps[items[1][1]], d))
LabelOf(sp, t) == IF t # "" THEN t ELSE IF sp.label # "" THEN sp.label ELSE sp.name
RECURSIVE SumIf(_, _, _, _, _)
SumIf(sps, items, d, types, k) ==
  IF k = 0 THEN Zeros(AxisOf(sps[items[1][1]], d).b)
  ELSE LET r == SumIf(sps, items, d, types, k - 1) IN
       IF items[k][2] \in types THEN RAddSeq(r, Projected(sps[items[k][1]], d)) ELSE r
Backgrounds(sps, items, d) == SumIf(sps, items, d, {"background"}, Len(items))
Everything(sps, items, d) == SumIf(sps, items, d, {"background", "signal"}, Len(items))
Each(sps, items, d) ==
  [k \in 1..Len(items) |-> <<LabelOf(sps[items[k][1]], items[k][3]), Projected(sps[items[k][1]], d)>>]
Limited(sps, lim, d) ==
  IF lim = 0 THEN <<>>
  ELSE << <<IF sps[lim].label # "" THEN sps[lim].label ELSE "limit", Projected(sps[lim], d)>> >>
SpectralPlot(sps, items, d, lim) ==
  Each(sps, items, d)
  \o << <<"Summed background", Backgrounds(sps, items, d)>>, <<"Sum", Everything(sps, items, d)>> >>
  \o Limited(sps, lim, d)

-----------------------------------------------------------------------------
(* Fit results.                                                              *)
CellAt(g, idx) == Flat(FShape(g), idx)
\* raw or full statistics over parameters p and q, the others at fix
OverPars(g, p, q, fix, full) ==
  LET n == Len(g.vals[p]) m == Len(g.vals[q]) IN
  [c \in 1..(n * m) |->
     LET i == (c - 1) \div m j == (c - 1) % m
         at == CellAt(g, [k \in 1..Len(g.vals) |-> IF k = p THEN i ELSE IF k = q THEN j ELSE fix[k]])
     IN IF full THEN Full(g, at) ELSE RawTotal(g, at)]
BestIdx(g) == [k \in 1..Len(g.vals) |->
                 (CHOOSE i \in 1..Len(g.vals[k]) : REq(g.vals[k][i], g.best[k])) - 1]
\* statistics of the spectral bins at one combination of parameters
BinStats(g, idx, x, y) ==
  LET s == CellStats(g, CellAt(g, idx)) IN
  IF y = 0 \/ x < y THEN s ELSE Turned(g.ss[x], g.ss[y], s)

-----------------------------------------------------------------------------
(* Limit results.                                                            *)
RECURSIVE PenSum(_, _, _)
PenSum(l, s, k) == IF k = 0 THEN "0" ELSE RAdd(PenSum(l, s, k - 1), l.pens[k][s])
FullAt(l, s) == RAdd(RSum(l.stats[s]), PenSum(l, s, Len(l.pens)))
FullStats(l) == [s \in 1..Len(l.scales) |-> FullAt(l, s)]
Sigmas(l, p) == [s \in 1..Len(l.scales) |->
                   RDiv(RSub(l.bests[p][s], l.prior[p]), l.sigma[p])]
Graph(x, y) == [x |-> x, y |-> y]
StatsPlot(l) == Graph(l.scales, FullStats(l))
BestPlot(l, p) == Graph(l.scales, l.bests[p])
SigmasPlot(l, p) == Graph(l.scales, Sigmas(l, p))
PenaltyPlot(l, p) == Graph(l.scales, l.pens[p])
=============================================================================
