----------------------------- MODULE MC_Spectrum -----------------------------
(* Exhaustive design check of Spectrum.tla.  Besides the heap the model keeps *)
(* a ledger per spectrum: the bag (sequence) of [e, r, w] fills it represents.*)
(* The histogram must always be the histogram of the ledger.                  *)
EXTENDS Spectrum, TLC, Json
CONSTANTS MaxOps
VARIABLES heap, ledger, hist
vars == <<heap, ledger, hist>>
View == <<heap, ledger>>

E0 == [n |-> "energy_mc", lo |-> "1", hi |-> "5", b |-> 4]
R0 == [n |-> "radial_mc", lo |-> "1/2", hi |-> "5/2", b |-> 2]
Fills == {<<"1", "1/2">>, <<"13/4", "7/4">>, <<"9/2", "1">>}
Bad   == {<<"5", "1">>, <<"2", "1/4">>}
Vals(f) == <<[n |-> "energy_mc", v |-> f[1]], [n |-> "radial_mc", v |-> f[2]]>>
\* requests in units of bins of the present axis
Cuts == {<<"energy_mc", "1", "4">>, <<"energy_mc", "0", "3/2">>,
         <<"radial_mc", "1", "2">>}
Bins == {<<2, 1>>, <<4, 1>>, <<3, 2>>, <<1, 2>>}

Init == /\ heap = <<NewSpectrum(<<E0, R0>>, "8")>>
        /\ ledger = << <<>> >>
        /\ hist = <<[op |-> "new", dec |-> "8",
              axes |-> <<[n |-> E0.n, lo |-> E0.lo, hi |-> E0.hi, b |-> E0.b],
                         [n |-> R0.n, lo |-> R0.lo, hi |-> R0.hi, b |-> R0.b]>>]>>

Edge(a, p) == RAdd(a.lo, RMul(p, Width(a)))
Note(o) == hist' = Append(hist, o)

DoFill(i, f) ==
  /\ Note([op |-> "fill", i |-> i, w |-> "2",
           vals |-> <<[n |-> "energy_mc", v |-> f[1]], [n |-> "radial_mc", v |-> f[2]]>>])
  /\ IF FillAccepted(heap[i], Vals(f))
     THEN /\ heap' = [heap EXCEPT ![i] = Fill(@, Vals(f), "2")]
          /\ ledger' = [ledger EXCEPT ![i] = Append(@, [e |-> f[1], r |-> f[2], w |-> "2"])]
     ELSE UNCHANGED <<heap, ledger>>

Req(sp, c) == LET a == sp.axes[AxisNo(sp, c[1])] IN
  <<[n |-> c[1], w |-> "low", v |-> Edge(a, c[2])],
    [n |-> c[1], w |-> "high", v |-> Edge(a, c[3])]>>
Kept(sp, l) == SelectSeq(l, LAMBDA x : FillAccepted(sp, Vals(<<x.e, x.r>>)))
DoCut(i, c, kind) ==
  /\ Note([op |-> kind, i |-> i,
           req |-> <<[n |-> c[1], w |-> "low", p |-> c[2]], [n |-> c[1], w |-> "high", p |-> c[3]]>>])
  /\ LET req == Req(heap[i], c) IN
     IF ShrinkRejected(heap[i], req) THEN UNCHANGED <<heap, ledger>>
     ELSE /\ ShrinkDefined(heap[i], req)
          /\ kind # "shrink" => RLt("0", Total(heap[i]))
          /\ heap' = [heap EXCEPT ![i] =
                CASE kind = "shrink" -> Shrink(@, req)
                  [] kind = "cut" -> Cut(@, req)
                  [] kind = "roi" -> Roi(@, c[1], req[1].v, req[2].v)]
          /\ ledger' = [ledger EXCEPT ![i] = Kept(heap'[i], @)]
DoRebin(i, n) ==
  /\ Note([op |-> "rebin", i |-> i, bins |-> n])
  /\ IF RebinAccepted(heap[i], n)
     THEN heap' = [heap EXCEPT ![i] = Rebin(@, n)] ELSE UNCHANGED heap
  /\ UNCHANGED ledger
DoScale(i, n) ==
  /\ RLt("0", heap[i].dec)
  /\ Note([op |-> "scale", i |-> i, to |-> n])
  /\ heap' = [heap EXCEPT ![i] = ScaleTo(@, n)]
  /\ ledger' = [ledger EXCEPT ![i] =
        [j \in 1..Len(@) |-> [@[j] EXCEPT !.w = RMul(@, RDiv(n, heap[i].dec))]]]
DoCopy(i) ==
  /\ Len(heap) = 1
  /\ Note([op |-> "copy", i |-> i])
  /\ heap' = Append(heap, heap[i]) /\ ledger' = Append(ledger, ledger[i])
DoAdd(i, j) ==
  /\ i # j
  /\ Note([op |-> "add", i |-> i, j |-> j])
  /\ IF AddAccepted(heap[i], heap[j])
     THEN /\ heap' = [heap EXCEPT ![i] = Add(@, heap[j])]
          /\ ledger' = [ledger EXCEPT ![i] = @ \o ledger[j]]
     ELSE UNCHANGED <<heap, ledger>>

Next ==
  /\ Len(hist) <= MaxOps
  /\ \E i \in 1..Len(heap) :
       \/ \E f \in Fills \cup Bad : DoFill(i, f)
       \/ \E c \in Cuts, k \in {"shrink", "cut", "roi"} : DoCut(i, c, k)
       \/ \E n \in Bins : DoRebin(i, n)
       \/ DoScale(i, "5")
       \/ DoCopy(i)
       \/ \E j \in 1..Len(heap) : DoAdd(i, j)
NextE == Next /\ PrintT(ToJson(hist'))

-----------------------------------------------------------------------------
\* C02/C03: axes describe the data
ShapeOk == \A i \in 1..Len(heap) :
  /\ Len(heap[i].data) = Prod(Shape(heap[i]))
  /\ \A k \in 1..Len(heap[i].axes) : RLt(heap[i].axes[k].lo, heap[i].axes[k].hi)
\* C01/C02/C03/C05: bin content = weight of the ledger entries inside the bin
Cells(sp) == 1..Len(sp.data)
Weight(sp, l, c) ==
  RSum([j \in 1..Len(l) |->
     IF FillAccepted(sp, Vals(<<l[j].e, l[j].r>>))
        /\ FillCell(sp, Vals(<<l[j].e, l[j].r>>)) = c THEN l[j].w ELSE "0"])
HistogramOfLedger ==
  \A i \in 1..Len(heap) : \A c \in Cells(heap[i]) :
     REq(heap[i].data[c], Weight(heap[i], ledger[i], c))
\* C04: projections are consistent
ProjectionsAgree ==
  \A i \in 1..Len(heap) :
    LET sp == heap[i] IN
    /\ REq(RSum(Project(sp, {"energy_mc"})), Total(sp))
    /\ REq(RSum(Project(sp, {"radial_mc"})), Total(sp))
    /\ Project(sp, AxisNames(sp)) = [c \in Cells(sp) |-> RNorm(sp.data[c])]
\* C05: repeated scaling depends on the last only; efficiency within [0,1]
ScaleChains == \A i \in 1..Len(heap) :
  RLt("0", heap[i].dec) =>
  ScaleTo(ScaleTo(heap[i], "3"), "7") = ScaleTo(heap[i], "7")
EffOk == \A i \in 1..Len(heap) : \A r \in 1..Len(heap[i].rois) :
  RLe("0", heap[i].rois[r].eff) /\ RLe(heap[i].rois[r].eff, "1")
\* rebinning twice is rebinning once
RebinComposes == \A i \in 1..Len(heap) :
  LET sp == heap[i] IN
  (RebinAccepted(sp, <<2, 1>>) /\ RebinAccepted(sp, <<1, 1>>)) =>
     Rebin(Rebin(sp, <<2, 1>>), <<1, 1>>) = Rebin(sp, <<1, 1>>)
=============================================================================
