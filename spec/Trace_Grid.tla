----------------------------- MODULE Trace_Grid -----------------------------
EXTENDS Grid, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VT_TRACE)
VARIABLES l, g, lim, sig, best
\* g: the grid as last observed (NoGrid before there is one)
\* lim: limit results; sig: <<prior, sigma>> per parameter; best: last best fits
NoGrid == [vals |-> <<>>, ss |-> <<>>, pb |-> FALSE, stats |-> <<>>, pens |-> <<>>]
NoLim == NewLimit(0, 0)
HaveGrid == g.vals # <<>>

Same(s, t) == RCloseSeq(s, t, "1e-12", "0")
Close(s, t) == RCloseSeq(s, t, "1e-9", "1e-9")
\* what was observed of the grid after the call
Seen(ev) == [g EXCEPT !.stats = ev.stats, !.pens = ev.pens]
Sane(ev) == Len(ev.stats) = Len(g.stats) /\ Len(ev.pens) = Len(g.pens)
Unchanged(ev) == Same(ev.stats, g.stats) /\ Same(ev.pens, g.pens)
Squeeze(s) == SelectSeq(s, LAMBDA n : n # 1)

-----------------------------------------------------------------------------
BadMake(ev) ==
  IF ~ev.ok THEN {"C11.rejected"}
  ELSE LET n == NewGrid(ev.vals, ev.ss, ev.pb) IN
       IF Same(ev.stats, n.stats) /\ Same(ev.pens, n.pens) THEN {} ELSE {"C11.initial_grid"}

\* ev.calls: for every evaluation the cell whose values were passed (-1: none)
BadMinimise(ev) ==
  LET n == NCells(g)  row(c) == SubSeq(ev.table, c * NBins(g) + 1, (c + 1) * NBins(g)) IN
  IF ev.wrong # ""              \* the objective returned something unusable
  THEN IF ev.ok THEN {"C11.bad_result_accepted"} ELSE {}
  ELSE IF ~ev.ok
  THEN IF SomeNumber([c \in 1..n |-> RAdd(RSum(row(c - 1)), ev.ptable[c])])
       THEN {"C11.search_failed", "C12.search_failed"} ELSE {}
  ELSE
   (IF Len(ev.calls) = n /\ {ev.calls[i] : i \in 1..Len(ev.calls)} = 0..(n - 1)
    THEN {} ELSE {"C11.evaluations"})
   \cup (IF ~Sane(ev) THEN {"C11.grid_size"}
         ELSE (IF Same(ev.stats, ev.table) THEN {} ELSE {"C11.cell_statistic"})
         \cup (IF Same(ev.pens, ev.ptable) THEN {} ELSE {"C11.cell_penalty"})
         \cup LET s == Seen(ev)  f == Fulls(s)
                  at == [k \in 1..Len(g.vals) |->
                          LET hits == {i \in 1..Len(g.vals[k]) : REq(g.vals[k][i], ev.best[k])} IN
                          IF hits = {} THEN -1 ELSE (CHOOSE i \in hits : TRUE) - 1]
              IN
              (IF ~RCloseSeq(ev.full, f, "1e-9", "1e-9") THEN {"C11.full_grid"} ELSE {})
              \cup (IF ~SomeNumber(f) THEN {}
                    ELSE IF ~InGrid(g, at) THEN {"C12.best_fit_not_on_grid"}
                    ELSE LET c == CellOf(g, at) IN
                      (IF RIsNan(f[c + 1]) \/ ~RClose(f[c + 1], Lowest(f), "1e-12", "1e-12")
                       THEN {"C12.not_the_minimum"} ELSE {})
                      \cup (IF Same(ev.out, CellStats(s, c)) /\ Len(ev.out) = NBins(g)
                            THEN {} ELSE {"C12.returned_statistic"})
                      \cup (IF Same(ev.outpen, <<s.pens[c + 1]>>) THEN {} ELSE {"C12.returned_penalty"})
                      \cup (IF \A k \in 1..Len(g.vals) :
                                 RClose(ev.parpen[k],
                                   IF sig[k][2] = "none" THEN "0"
                                   ELSE LET d == RDiv(RSub(ev.best[k], sig[k][1]), sig[k][2]) IN RMul(d, d),
                                   "1e-9", "1e-12")
                            THEN {} ELSE {"C12.parameter_penalty"})
                      \cup (IF ev.sum = ev.best THEN {} ELSE {"C24.summary_best_fit"})
                      \cup (IF ev.sumpen = ev.parpen THEN {} ELSE {"C24.summary_penalty"})))

BadFind(ev) ==
  IF ~SomeNumber(ev.arr) THEN {}
  ELSE IF ~ev.ok THEN {"C12.find_failed"}
  ELSE LET lo == Lowest(ev.arr) IN
    (IF Same(ev.out, <<lo>>) THEN {} ELSE {"C12.minimum_value"})
    \cup (IF Len(ev.idx) = Len(ev.shape) /\ \A k \in 1..Len(ev.idx) : ev.idx[k] \in 0..(ev.shape[k] - 1)
          THEN IF Same(<<ev.arr[Flat(ev.shape, ev.idx) + 1]>>, <<lo>>) THEN {} ELSE {"C12.minimum_position"}
          ELSE {"C12.minimum_position"})
    \cup (IF Same(ev.arr2, ev.arr) THEN {} ELSE {"C12.array_changed"})

\* single cells
BadCell(ev) ==
  LET in == InGrid(g, ev.idx)  c == IF in THEN CellOf(g, ev.idx) ELSE 0 IN
  CASE ev.op = "set_stat" ->
         IF ~in THEN (IF ev.ok THEN {"C11.outside_written"} ELSE {})
                     \cup (IF Sane(ev) /\ Unchanged(ev) THEN {} ELSE {"C11.outside_written"})
         ELSE IF ~ev.ok THEN {"C11.cell_rejected"}
         ELSE LET n == Put(g, c, ev.table) IN
              IF Sane(ev) /\ Same(ev.stats, n.stats) /\ Same(ev.pens, n.pens) THEN {} ELSE {"C11.set_statistic", "C24.set_statistic"}
    [] ev.op = "set_penalty_term" ->
         IF ~in THEN (IF ev.ok THEN {"C11.outside_written"} ELSE {})
                     \cup (IF Sane(ev) /\ Unchanged(ev) THEN {} ELSE {"C11.outside_written"})
         ELSE IF ~ev.ok THEN {"C11.cell_rejected"}
         ELSE LET n == PutPen(g, c, ev.table[1]) IN
              IF Sane(ev) /\ Same(ev.stats, n.stats) /\ Same(ev.pens, n.pens) THEN {} ELSE {"C11.set_penalty", "C24.set_penalty"}
    [] ev.op \in {"get_stat", "get_penalty_term", "get_raw_stat"} ->
         IF ~in THEN IF ev.ok THEN {"C11.outside_read", "C24.outside_read"} ELSE {}
         ELSE IF ~ev.ok THEN {"C24.read_failed"}
         ELSE LET want == CASE ev.op = "get_stat" -> <<Full(g, c)>>
                            [] ev.op = "get_penalty_term" -> <<g.pens[c + 1]>>
                            [] OTHER -> CellStats(g, c) IN
              IF Close(ev.out, want) /\ Len(ev.out) = Len(want) THEN {} ELSE {"C24." \o ev.op}

\* ev.fix: 0-based value index per parameter, -1 where not asked for
BadSlice(ev) ==
  IF ev.unknown THEN IF ev.ok THEN {"C24.unknown_parameter_accepted"} ELSE {}
  ELSE IF ~ev.ok THEN {"C24.read_failed"}
  ELSE
  CASE ev.op = "get_raw_stats" ->
         IF /\ Close(ev.out, SliceFixed(FShape(g), RawTotals(g), ev.fix))
            /\ Squeeze(ev.outshape) = Squeeze(FreeShape(FShape(g), ev.fix))
         THEN {} ELSE {"C24.get_raw_stats"}
    [] ev.op = "get_raw_stats_at" ->
         IF /\ Close(ev.out, CellStats(g, CellOf(g, ev.fix)))
            /\ (g.pb => Squeeze(ev.outshape) = Squeeze(g.ss))
         THEN {} ELSE {"C24.get_raw_stats_at"}
    [] ev.op = "get_penalty_at" ->
         IF Close(ev.out, <<g.pens[CellOf(g, ev.fix) + 1]>>) THEN {} ELSE {"C24.get_penalty_at"}

BadWhole(ev) ==
  IF ~ev.ok THEN {"C24.read_failed"}
  ELSE
  CASE ev.op = "get_stats" ->
         (IF Close(ev.out, Fulls(g)) /\ ev.outshape = FShape(g) THEN {} ELSE {"C24.get_stats", "C11.full_grid"})
    [] ev.op = "get_scales" ->
         IF Same(ev.out, g.vals[ev.fix[1] + 1]) THEN {} ELSE {"C24.get_scales"}
    [] ev.op = "get_penalty_terms" ->
         IF Len(g.vals) = 1 => Same(ev.out, g.pens) THEN {} ELSE {"C24.get_penalty_terms"}

\* ev.keep: axes (1-based over the fit axes, then the spectral ones)
BadProject(ev) ==
  LET nf == Len(g.vals)
      keep == {ev.keep[i] : i \in 1..Len(ev.keep)}
      fitonly == keep \subseteq 1..nf IN
  IF ev.unknown THEN IF ev.ok THEN {"C24.unknown_parameter_accepted"} ELSE {}
  ELSE IF ~fitonly /\ ~g.pb THEN {}
  ELSE IF ev.op = "project"
  THEN IF ~ev.ok THEN {"C24.read_failed"}
       ELSE LET want == IF fitonly THEN Marginal(FShape(g), Fulls(g), keep)
                        ELSE Marginal(FullShape(g), g.stats, keep) IN
            IF Close(ev.out, want) THEN {} ELSE {"C24.nd_project_stats"}
  ELSE IF ~InGrid(g, ev.idx) THEN IF ev.ok THEN {"C24.outside_read"} ELSE {}
  ELSE IF ~ev.ok THEN {"C24.read_failed"}
       ELSE LET c == CellOf(g, ev.idx)
                want == IF fitonly THEN <<Full(g, c)>>
                        ELSE Marginal(g.ss, CellStats(g, c), {k - nf : k \in keep \ 1..nf}) IN
            IF Close(ev.out, want) THEN {} ELSE {"C24.nd_project_stat"}

BadFill(ev) ==
  LET right == ev.wrong = "" IN
  IF ~right THEN (IF ev.ok THEN {"C11.wrong_shape_accepted"} ELSE {})
                 \cup (IF Sane(ev) /\ Unchanged(ev) THEN {} ELSE {"C11.rejected_but_changed"})
  ELSE IF ~ev.ok THEN {"C24.write_failed"}
  ELSE IF Sane(ev) /\ Same(ev.stats, IF ev.op = "set_stats" THEN ev.table ELSE g.stats)
                   /\ Same(ev.pens, IF ev.op = "set_stats" THEN g.pens ELSE ev.table)
       THEN {} ELSE {"C24." \o ev.op}

BadReset(ev) ==
  LET n == NewGrid(ev.vals, g.ss, g.pb) IN
  IF ~ev.ok THEN {"C11.reset_failed"}
  ELSE IF Same(ev.stats, n.stats) /\ Same(ev.pens, n.pens) THEN {} ELSE {"C11.reset"}

Reads == {"get_stat", "get_penalty_term", "get_raw_stat", "get_raw_stats", "get_raw_stats_at",
          "get_penalty_at", "get_stats", "get_scales", "get_penalty_terms", "project", "project_at"}
BadGrid(ev) ==
  CASE ev.op = "make" -> BadMake(ev)
    [] ev.op = "minimise" -> BadMinimise(ev)
    [] ev.op = "find" -> BadFind(ev)
    [] ev.op = "reset" -> BadReset(ev)
    [] ev.op \in {"set_stats", "set_penalty_terms"} -> BadFill(ev)
    [] ev.op \in {"set_stat", "set_penalty_term", "get_stat", "get_penalty_term", "get_raw_stat"} -> BadCell(ev)
    [] ev.op \in {"get_raw_stats", "get_raw_stats_at", "get_penalty_at"} -> BadSlice(ev)
    [] ev.op \in {"get_stats", "get_scales", "get_penalty_terms"} -> BadWhole(ev)
    [] ev.op \in {"project", "project_at"} -> BadProject(ev)
    [] OTHER -> {"*.crash"}
ReadOnly(ev) ==
  IF ev.op \in Reads /\ ~(Sane(ev) /\ Unchanged(ev)) THEN {"C24.reading_changed_the_grid"} ELSE {}

-----------------------------------------------------------------------------
(* Limit results: ev.i scale, ev.k parameter (0-based; out of range: unknown) *)
LStep(ev) ==
  LET i == ev.i + 1  k == ev.k + 1 IN
  CASE ev.op = "lmake" -> NewLimit(ev.ns, ev.np)
    [] ev.op = "lset_best_fit" -> [lim EXCEPT !.best[i][k] = ev.x]
    [] ev.op = "lset_penalty_term" -> [lim EXCEPT !.pen[i][k] = ev.x]
    [] ev.op = "lset_limit_stat" -> [lim EXCEPT !.stat[i] = ev.x]
    [] OTHER -> lim
LIn(ev) == /\ (ev.i >= 0 => ev.i < lim.ns) /\ (ev.k >= 0 => ev.k < lim.np)
LWant(ev) ==
  LET i == ev.i + 1  k == ev.k + 1 IN
  CASE ev.op = "lget_best_fit" -> <<lim.best[i][k]>>
    [] ev.op = "lget_best_fits" -> Column(lim.best, k)
    [] ev.op = "lget_penalty_term" -> <<lim.pen[i][k]>>
    [] ev.op = "lget_penalty_terms" -> Column(lim.pen, k)
    [] ev.op = "lget_penalty_terms_at_scale" -> lim.pen[i]
    [] ev.op = "lget_full_stat" -> <<LFull(lim, i)>>
    [] ev.op = "lget_full_stats" -> [s \in 1..lim.ns |-> LFull(lim, s)]
    [] ev.op = "lget_limit_stat" -> <<lim.stat[i]>>
    [] ev.op = "lget_stats" -> lim.stat
    [] ev.op = "lget_scales" -> ev.scales
BadLimit(ev) ==
  IF ev.op = "lmake"
  THEN IF ev.ok THEN {} ELSE {"C24.limit_results"}
  ELSE LET ok == LIn(ev)  n == IF ok THEN LStep(ev) ELSE lim IN
  (IF ~ok THEN IF ev.ok THEN {"C24.outside_accepted"} ELSE {}
   ELSE IF ~ev.ok THEN {"C24.failed"}
   ELSE IF SStartsWith(ev.op, "lget") /\ ~Close(ev.out, LWant(ev)) THEN {"C24." \o ev.op} ELSE {})
  \cup (IF Same(ev.lstat, n.stat) /\ \A s \in 1..n.ns : Same(ev.lbest[s], n.best[s]) /\ Same(ev.lpen[s], n.pen[s])
        THEN {} ELSE {IF SStartsWith(ev.op, "lset") THEN "C24.recorded" ELSE "C24.reading_changed"})

IsLimit(ev) == SStartsWith(ev.op, "l")
Bad(ev) == IF ev.op = "crash" THEN {"*.crash"}
           ELSE IF IsLimit(ev) THEN BadLimit(ev) ELSE BadGrid(ev) \cup ReadOnly(ev)

TInit == l = 1 /\ g = NoGrid /\ lim = NoLim /\ sig = <<>> /\ best = <<>>
TNext ==
  /\ l <= Len(Trace)
  /\ \A c \in Bad(Trace[l]) : PrintT(<<"BAD", l, c>>)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     /\ g' = CASE ev.op = "make" -> [NewGrid(ev.vals, ev.ss, ev.pb) EXCEPT !.stats = ev.stats, !.pens = ev.pens]
               [] ev.op = "reset" -> [NewGrid(ev.vals, g.ss, g.pb) EXCEPT !.stats = ev.stats, !.pens = ev.pens]
               [] ev.op \in {"crash", "find"} \/ IsLimit(ev) -> g
               [] OTHER -> Seen(ev)
     /\ sig' = IF ev.op \in {"make", "reset"} THEN ev.sig ELSE sig
     /\ lim' = IF IsLimit(ev) /\ ev.ok /\ (ev.op = "lmake" \/ LIn(ev)) THEN LStep(ev) ELSE lim
     /\ best' = best
=============================================================================
