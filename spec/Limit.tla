------------------------------- MODULE Limit --------------------------------
(* Limits on a signal (echidna/limit/limit.py): the fit is repeated for      *)
(* every signal scale on the grid of the signal's rate.  Property C15.       *)
(* Everything is computed from the fit (Fit.tla) and the test statistics     *)
(* (Stats.tla); a fit with floating backgrounds is minimised over the points *)
(* of the parameter grid.                                                    *)
EXTENDS Fit
S == INSTANCE Stats
StatKind(f) == IF f.stat = "ll" THEN "baker_cousins_ll" ELSE "baker_cousins"

WithSignal(f, sig) == [f EXCEPT !.signal = <<sig>>]
NoSignal(f) == [f EXCEPT !.signal = <<>>]
\* per point: <<specified, floating and fixed parts, signal vector>> at the
\* present number of signal decays
PointBase(f, vals, base) ==
  LET p == RForce([i \in 1..Len(f.floats) |-> Rated(f, vals, i, base.floats[i])])
           \o base.rest
  IN <<\A i \in 1..Len(p) : p[i][1] /\ Len(p[i][2]) = Len(p[1][2]), p>>
RECURSIVE Sum2(_, _)
Sum2(parts, i) ==
  IF i = 1 THEN parts[1][2] ELSE RAddSeq(Sum2(parts, i - 1), parts[i][2])
\* bases for all points, f with the signal of the limit
PointBases(f, pts) ==
  LET first == RForce([k \in 1..Len(pts) |->
                 CHOOSE j \in 1..k : /\ SameGlobals(f, pts[j], pts[k])
                                     /\ \A i \in 1..(j - 1) : ~SameGlobals(f, pts[i], pts[k])])
      base == RForce([k \in 1..Len(pts) |->
                 IF first[k] = k THEN BaseAt(f, pts[k]) ELSE <<>>])
  IN RForce([k \in 1..Len(pts) |-> PointBase(f, pts[k], base[first[k]])])
\* the signal is the last part; c: decays wanted, "0" for no signal
ExpAt(f, pb, c) ==
  LET n == Len(pb[2])
      bg == IF n = 1 THEN <<>> ELSE Sum2(pb[2], n - 1)
      sg == RScaleSeq(RDiv(c, f.signal[1].dec), pb[2][n][2])
  IN One(f, RRound(IF n = 1 THEN sg ELSE IF REq(c, "0") THEN bg ELSE RAddSeq(bg, sg)))
Close2(a, b) == RClose(a, b, "1e-8", "1e-8")
\* the fit at c signal decays: [ok: unambiguous, raw, pen, at: grid point]
FitAt(f, pts, pbs, c) ==
  LET obs == Observed(f)
      raw == RForce([k \in 1..Len(pts) |-> S!Total(StatKind(f), obs, ExpAt(f, pbs[k], c))])
      pen == RForce([k \in 1..Len(pts) |->
               IF Len(f.floats) = 0 THEN "0" ELSE Penalty(f, pts[k])])
      tot == RAddSeq(raw, pen)
      best == CHOOSE k \in 1..Len(pts) : \A j \in 1..Len(pts) :
                RLt(tot[k], tot[j]) \/ (RLe(tot[k], tot[j]) /\ k <= j)
  IN [ok |-> \A j \in 1..Len(pts) :
               Close2(tot[j], tot[best]) => Close2(raw[j], raw[best]) /\ Close2(pen[j], pen[best]),
      same |-> {j \in 1..Len(pts) : Close2(tot[j], tot[best])},
      raw |-> raw[best], pen |-> pen[best], at |-> best]
IsZero(c) == RClose(c, "0", "0", "1e-8")
\* the whole scan
Scan(f, pts, scales, zero) ==
  LET pbs == PointBases(f, pts)
      ok == \A k \in 1..Len(pbs) : pbs[k][1]
      z == IF zero = "none" THEN FitAt(f, pts, pbs, "0") ELSE [ok |-> TRUE, raw |-> zero]
      r == RForce([i \in 1..Len(scales) |->
             FitAt(f, pts, pbs, IF IsZero(scales[i]) THEN "0" ELSE scales[i])])
  IN IF ~ok THEN [ok |-> FALSE]
     ELSE [ok |-> z.ok /\ \A i \in 1..Len(scales) : r[i].ok,
           fits |-> r,
           stat |-> RForce([i \in 1..Len(scales) |-> RSub(r[i].raw, z.raw)]),
           full |-> RForce([i \in 1..Len(scales) |-> RAdd(RSub(r[i].raw, z.raw), r[i].pen)])]

\* indices of the lowest value, up to rounding
Lowest(s) == {k \in 1..Len(s) : \A j \in 1..Len(s) : RLe(s[k], RAdd(s[j], "1e-7"))}
\* the first index from k on that exceeds the threshold; 0: none
FirstOver(s, k, thr) ==
  LET I == {i \in k..Len(s) : RLt(thr, s[i])} IN
  IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
\* rounding decides whether the threshold is exceeded
Near(s, thr) == \E i \in 1..Len(s) : RClose(s[i], thr, "1e-7", "1e-7")
\* the lowest statistic may be taken with or without the penalties
Answers(stat, full, thr) ==
  {FirstOver(full, k, thr) : k \in Lowest(stat) \cup Lowest(full)}
=============================================================================
