------------------------------ MODULE Spectrum ------------------------------
(* Spectra of echidna/core/spectra.py: histograms with named axes, their     *)
(* cuts, rebinning, projections, normalisation, addition and copies.         *)
(*                                                                           *)
(* A spectrum is a record                                                    *)
(*   axes   sequence of [n: name, lo: low edge, hi: high edge, b: bins]      *)
(*   data   row-major sequence of bin contents                               *)
(*   dec    number of decays represented by the full spectrum                *)
(*   raw    number of raw events                                             *)
(*   rois   sequence of [n, lo, hi, eff], most recent per axis               *)
(* `heap` is the sequence of live spectra.  Properties C01..C06.             *)
EXTENDS NdArray, FiniteSets

Shape(sp) == [k \in 1..Len(sp.axes) |-> sp.axes[k].b]
Width(a) == RDiv(RSub(a.hi, a.lo), a.b)
Pos(a, v) == RDiv(RSub(v, a.lo), Width(a))     \* position of v in bins

NewSpectrum(axes, dec) ==
  [axes |-> axes,
   data |-> [i \in 1..Prod([k \in 1..Len(axes) |-> axes[k].b]) |-> "0"],
   dec |-> dec, raw |-> 0, rois |-> <<>>]

Total(sp) == RSum(sp.data)
AxisNames(sp) == {sp.axes[k].n : k \in 1..Len(sp.axes)}
AxisNo(sp, n) == CHOOSE k \in 1..Len(sp.axes) : sp.axes[k].n = n

\* positions within 1e-9 of an edge are on the edge (floating-point rounding)
Snap(p) == LET r == RFloor(RAdd(p, "1/2"))
           IN IF RClose(p, r, "0", "1e-9") THEN RNorm(r) ELSE RNorm(p)

-----------------------------------------------------------------------------
(* Fill (C01).  vals is a sequence of [n, v].                                *)
ValueOf(vals, n) == vals[CHOOSE i \in 1..Len(vals) : vals[i].n = n].v
FillNames(vals) == {vals[i].n : i \in 1..Len(vals)}
\* the upper edge is not part of the axis, whatever is below it is
InRange(a, v) == RLe("0", Snap(Pos(a, v))) /\ RLt(v, a.hi)
FillBin(a, v) == LET f == RFloor(Snap(Pos(a, v))) IN IF f >= a.b THEN a.b - 1 ELSE f
FillAccepted(sp, vals) ==
  /\ FillNames(vals) = AxisNames(sp)
  /\ \A k \in 1..Len(sp.axes) : InRange(sp.axes[k], ValueOf(vals, sp.axes[k].n))
FillCell(sp, vals) ==
  Flat(Shape(sp), [k \in 1..Len(sp.axes) |->
        FillBin(sp.axes[k], ValueOf(vals, sp.axes[k].n))]) + 1
Fill(sp, vals, w) ==
  [sp EXCEPT !.data[FillCell(sp, vals)] = RAdd(@, w)]

-----------------------------------------------------------------------------
(* Shrink, cut, region of interest (C02, C05).                               *)
(* req is a sequence of [n: axis, w: "low"|"high"|other, v].                 *)
\* a bin overlapping by less than 1% of its width is not kept; a bound that
\* equals the present edge up to rounding is that edge
AtLow(a, v)  == RClose(v, a.lo, "0", RMul("1e-4", Width(a)))
AtHigh(a, v) == RClose(v, a.hi, "0", RMul("1e-4", Width(a)))
LowBin(a, v)  == LET p == Snap(Pos(a, v)) f == RFloor(p)
                 IN IF AtLow(a, v) THEN 0
                    ELSE IF RLt("99/100", RSub(p, f)) THEN f + 1 ELSE f
HighBin(a, v) == LET p == Snap(Pos(a, v)) c == RCeil(p)
                 IN IF AtHigh(a, v) THEN a.b
                    ELSE IF RLt("99/100", RSub(c, p)) THEN c - 1 ELSE c
ReqIdx(req, n, w) == {i \in 1..Len(req) : req[i].n = n /\ req[i].w = w}
ReqLow(req, a)  == LET I == ReqIdx(req, a.n, "low") IN
  IF I = {} THEN 0 ELSE LowBin(a, req[CHOOSE i \in I : TRUE].v)
ReqHigh(req, a) == LET I == ReqIdx(req, a.n, "high") IN
  IF I = {} THEN a.b ELSE HighBin(a, req[CHOOSE i \in I : TRUE].v)

Beyond(a, r) ==
  \/ r.w = "low"  /\ RLt(r.v, a.lo) /\ ~AtLow(a, r.v)
  \/ r.w = "high" /\ RLt(a.hi, r.v) /\ ~AtHigh(a, r.v)
ShrinkRejected(sp, req) ==
  \E i \in 1..Len(req) :
     \/ req[i].n \notin AxisNames(sp)
     \/ req[i].w \notin {"low", "high"}
     \/ Beyond(sp.axes[AxisNo(sp, req[i].n)], req[i])
\* what an empty selection means is not specified
ShrinkDefined(sp, req) ==
  \A k \in 1..Len(sp.axes) : ReqLow(req, sp.axes[k]) < ReqHigh(req, sp.axes[k])
Shrink(sp, req) ==
  LET lo == [k \in 1..Len(sp.axes) |-> ReqLow(req, sp.axes[k])]
      n  == [k \in 1..Len(sp.axes) |-> ReqHigh(req, sp.axes[k]) - lo[k]]
      Edge(a, i) == RAdd(a.lo, RMul(i, Width(a)))
  IN [sp EXCEPT
       !.data = Slice(Shape(sp), sp.data, lo, n),
       !.axes = [k \in 1..Len(sp.axes) |->
                  [n |-> sp.axes[k].n, lo |-> Edge(sp.axes[k], lo[k]),
                   hi |-> Edge(sp.axes[k], lo[k] + n[k]), b |-> n[k]]]]
Cut(sp, req) ==
  LET s == Shrink(sp, req)
  IN [s EXCEPT !.dec = RMul(@, RDiv(Total(s), Total(sp)))]
Roi(sp, n, lo, hi) ==
  LET s == Shrink(sp, <<[n |-> n, w |-> "low", v |-> lo],
                        [n |-> n, w |-> "high", v |-> hi]>>)
      a == s.axes[AxisNo(s, n)]
  IN [s EXCEPT !.rois =
       SelectSeq(@, LAMBDA r : r.n # n) \o
       <<[n |-> n, lo |-> a.lo, hi |-> a.hi, eff |-> RDiv(Total(s), Total(sp))]>>]

-----------------------------------------------------------------------------
(* Rebin (C03).                                                              *)
RebinAccepted(sp, n) ==
  /\ Len(n) = Len(sp.axes)
  /\ \A k \in 1..Len(n) : n[k] > 0 /\ sp.axes[k].b % n[k] = 0
Rebin(sp, n) ==
  [sp EXCEPT !.data = Merge(Shape(sp), sp.data, n),
             !.axes = [k \in 1..Len(sp.axes) |-> [sp.axes[k] EXCEPT !.b = n[k]]]]

-----------------------------------------------------------------------------
(* Projections (C04): the axes keep their configured order.                  *)
Project(sp, names) ==
  Marginal(Shape(sp), sp.data,
           {k \in 1..Len(sp.axes) : sp.axes[k].n \in names})

-----------------------------------------------------------------------------
(* Normalisation and addition (C05).                                         *)
ScaleTo(sp, n) ==
  [sp EXCEPT !.data = RScaleSeq(RDiv(n, sp.dec), @), !.dec = RNorm(n)]

\* the dimension of an axis is its name without the last "_part"
Dim(n) == LET p == SSplit(n, "_") IN
          SSub(n, 0, SLen(n) - SLen(p[Len(p)]) - 1)
Dims(sp) == {Dim(sp.axes[k].n) : k \in 1..Len(sp.axes)}
AxisOfDim(sp, d) == sp.axes[CHOOSE k \in 1..Len(sp.axes) : Dim(sp.axes[k].n) = d]
SameOrder(a, b) == \A k \in 1..Len(a.axes) : Dim(a.axes[k].n) = Dim(b.axes[k].n)
AddAccepted(a, b) ==
  /\ Shape(a) = Shape(b)
  /\ Dims(a) = Dims(b)
  /\ \A d \in Dims(a) :
       LET x == AxisOfDim(a, d) y == AxisOfDim(b, d) IN
       /\ RClose(x.lo, y.lo, "0", RMul("1e-4", Width(x)))
       /\ RClose(x.hi, y.hi, "0", RMul("1e-4", Width(x)))
       /\ x.b = y.b
\* the same dimensions in another order: rejected, or added axis by axis
AddDefined(a, b) == Len(a.axes) = Len(b.axes) /\ SameOrder(a, b)
AddByName(a, b) ==
  LET at == [k \in 1..Len(b.axes) |->
               CHOOSE i \in 1..Len(a.axes) : Dim(a.axes[i].n) = Dim(b.axes[k].n)]
      t == [c \in 1..Len(a.data) |->
              LET u == Unflat(Shape(a), c - 1) IN
              b.data[Flat(Shape(b), [k \in 1..Len(b.axes) |-> u[at[k]]]) + 1]]
  IN [a EXCEPT !.data = RAddSeq(@, t), !.dec = RAdd(@, b.dec), !.raw = @ + b.raw]
Add(a, b) ==
  [a EXCEPT !.data = RAddSeq(@, b.data), !.dec = RAdd(@, b.dec),
            !.raw = @ + b.raw]
=============================================================================
