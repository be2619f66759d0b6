------------------------------ MODULE MC_Grid ------------------------------
(* A grid search in progress: cells are visited one after the other with      *)
(* freely chosen results; when all are done the minimum is located by both    *)
(* methods.                                                                   *)
EXTENDS Grid, TLC, Json
CONSTANTS Values, Shapes, PerBin, Penalties
ShapesQ == {<<2, 2>>, <<3>>}
ShapesT == ShapesQ \cup {<<2, 1, 2>>, <<1, 3>>}
VARIABLES g, done, hist
vars == <<g, done, hist>>
View == <<g, done>>

Points(n) == [i \in 1..n |-> i]
Init == /\ \E s \in Shapes, pb \in PerBin :
             g = NewGrid([k \in 1..Len(s) |-> Points(s[k])], <<2>>, pb)
        /\ done = 0
        /\ hist = <<>>
Rows == IF g.pb THEN {<<x, y>> : x \in Values, y \in Values} ELSE {<<x>> : x \in Values}
\* rows and penalties visited; penalties grow with the cell so they matter
Visit(row, p) == /\ g' = PutPen(Put(g, done, row), done, p)
                 /\ done' = done + 1
                 /\ hist' = Append(hist, [row |-> row, pen |-> p])
Next == /\ done < NCells(g)
        /\ \E row \in Rows, p \in Penalties : Visit(row, p)
Report == [op |-> "minimise", shape |-> FShape(g), ss |-> g.ss, pb |-> g.pb, table |-> hist']
NextE == /\ Next
         /\ (done' = NCells(g) =>
               PrintT(ToJson(<<[op |-> "cells", shape |-> FShape(g), ss |-> g.ss, pb |-> g.pb,
                                table |-> hist']>>)))

Untouched == \A c \in done..(NCells(g) - 1) : /\ \A i \in 1..NBins(g) : CellStats(g, c)[i] = "0"
                                              /\ g.pens[c + 1] = "0"
Written == \A c \in 0..(done - 1) : CellStats(g, c) = hist[c + 1].row /\ g.pens[c + 1] = hist[c + 1].pen
CellsAreCombinations ==
  /\ \A c \in 0..(NCells(g) - 1) : CellOf(g, Unflat(FShape(g), c)) = c
  /\ Cardinality({ValuesAt(g, c) : c \in 0..(NCells(g) - 1)}) = NCells(g)
BothMethodsAgree ==
  LET m == FindMinimum(FShape(g), Fulls(g)) IN
  /\ m.min = Lowest(Fulls(g))
  /\ Fulls(g)[CellOf(g, m.at) + 1] = m.min
  /\ (CellOf(g, m.at) + 1) \in Arg(Fulls(g))
CellsWith(k, i) ==
  SelectSeq([c \in 1..NCells(g) |-> c - 1], LAMBDA c : Unflat(FShape(g), c)[k] = i)
OnlyFixed(k, i) == [j \in 1..Len(g.vals) |-> IF j = k THEN i ELSE -1]
TotalsOf(cs) == [n \in 1..Len(cs) |-> RawTotal(g, cs[n])]
SlicesAgree ==
  \A k \in 1..Len(g.vals) : \A i \in 0..(Len(g.vals[k]) - 1) :
     SliceFixed(FShape(g), RawTotals(g), OnlyFixed(k, i)) = TotalsOf(CellsWith(k, i))
ProjectionTotals ==
  \A k \in 1..Len(g.vals) : REq(RSum(Marginal(FShape(g), Fulls(g), {k})), RSum(Fulls(g)))
=============================================================================
