-------------------------------- MODULE Grid --------------------------------
(* echidna/fit/minimise.py: GridSearch, and echidna/fit/fit_results.py:       *)
(* LimitResults (C11, C12, C24).                                              *)
(*                                                                            *)
(* A search is [vals, ss, pb, stats, pens]: vals[k] is the sequence of grid   *)
(* values of the k-th parameter; stats holds one entry per combination of     *)
(* grid values (and, when pb, per spectral bin of shape ss), pens one per     *)
(* combination.  Cells are numbered from 0 in row-major order.                *)
EXTENDS NdArray, FiniteSets

FShape(g) == [k \in 1..Len(g.vals) |-> Len(g.vals[k])]
NCells(g) == Prod(FShape(g))
NBins(g) == IF g.pb THEN Prod(g.ss) ELSE 1
FullShape(g) == IF g.pb THEN FShape(g) \o g.ss ELSE FShape(g)
Zeros(n) == [i \in 1..n |-> "0"]
NewGrid(vals, ss, pb) ==
  LET g == [vals |-> vals, ss |-> ss, pb |-> pb] IN
  [vals |-> vals, ss |-> ss, pb |-> pb,
   stats |-> Zeros(NCells(g) * NBins(g)), pens |-> Zeros(NCells(g))]

\* entries of cell c (0-based)
CellStats(g, c) == SubSeq(g.stats, c * NBins(g) + 1, (c + 1) * NBins(g))
RawTotal(g, c) == RSum(CellStats(g, c))
Full(g, c) == RAdd(RawTotal(g, c), g.pens[c + 1])
RawTotals(g) == [c \in 1..NCells(g) |-> RawTotal(g, c - 1)]
Fulls(g) == [c \in 1..NCells(g) |-> Full(g, c - 1)]
Put(g, c, row) ==
  [g EXCEPT !.stats = [i \in 1..Len(@) |->
      IF i > c * NBins(g) /\ i <= (c + 1) * NBins(g) THEN row[i - c * NBins(g)] ELSE @[i]]]
PutPen(g, c, p) == [g EXCEPT !.pens[c + 1] = p]

\* values of the parameters at cell c
ValuesAt(g, c) == LET u == Unflat(FShape(g), c) IN [k \in 1..Len(g.vals) |-> g.vals[k][u[k] + 1]]
CellOf(g, idx) == Flat(FShape(g), idx)
InGrid(g, idx) == Len(idx) = Len(g.vals) /\ \A k \in 1..Len(idx) : idx[k] >= 0 /\ idx[k] < Len(g.vals[k])

Lowest(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} :
               /\ ~RIsNan(x) /\ \A i \in 1..Len(s) : RIsNan(s[i]) \/ RLe(x, s[i])
SomeNumber(s) == \E i \in 1..Len(s) : ~RIsNan(s[i])
Arg(s) == {i \in 1..Len(s) : REq(s[i], Lowest(s))}

\* the slice of a row-major array at fixed positions along some axes:
\* fix[k] is the 0-based position, or -1 for a free axis
SliceFixed(shape, data, fix) ==
  LET free == SelectSeq([k \in 1..Len(shape) |-> k], LAMBDA k : fix[k] = -1)
      fs == [i \in 1..Len(free) |-> shape[free[i]]]
      Pos(k) == CHOOSE i \in 1..Len(free) : free[i] = k
  IN [c \in 1..Prod(fs) |->
        LET u == Unflat(fs, c - 1) IN
        data[Flat(shape, [k \in 1..Len(shape) |-> IF fix[k] = -1 THEN u[Pos(k)] ELSE fix[k]]) + 1]]
FreeShape(shape, fix) ==
  LET free == SelectSeq([k \in 1..Len(shape) |-> k], LAMBDA k : fix[k] = -1)
  IN [i \in 1..Len(free) |-> shape[free[i]]]

-----------------------------------------------------------------------------
(* find_minimum: reduce the innermost axis repeatedly, keeping for every      *)
(* remaining position the co-ordinates of its minimum so far.                 *)
FirstArg(s) == CHOOSE i \in Arg(s) : \A j \in Arg(s) : i <= j
RECURSIVE Reduce(_, _, _)
\* data over shape; co[c] co-ordinates already fixed (inner ones)
Reduce(shape, data, co) ==
  IF shape = <<>> THEN [min |-> data[1], at |-> co[1]]
  ELSE
  LET n == shape[Len(shape)]
      outer == SubSeq(shape, 1, Len(shape) - 1)
      Row(c) == SubSeq(data, (c - 1) * n + 1, c * n)
      a == [c \in 1..Prod(outer) |-> FirstArg(Row(c))]
  IN Reduce(outer, [c \in 1..Prod(outer) |-> Row(c)[a[c]]],
            [c \in 1..Prod(outer) |-> <<a[c] - 1>> \o co[(c - 1) * n + a[c]]])
FindMinimum(shape, data) == Reduce(shape, data, [c \in 1..Prod(shape) |-> <<>>])

-----------------------------------------------------------------------------
(* Limit results: one row per signal scale.                                   *)
NewLimit(ns, np) == [ns |-> ns, np |-> np, stat |-> Zeros(ns),
                     best |-> [i \in 1..ns |-> Zeros(np)], pen |-> [i \in 1..ns |-> Zeros(np)]]
LFull(r, i) == RAdd(r.stat[i], RSum(r.pen[i]))
Column(m, k) == [i \in 1..Len(m) |-> m[i][k]]
=============================================================================
