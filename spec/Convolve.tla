------------------------------ MODULE Convolve ------------------------------
(* Scaling, shifting and smearing of a spectrum along one of its axes        *)
(* (echidna/core/scale.py, shift.py, smear.py).  Properties C18, C19, C20.   *)
EXTENDS Spectrum

\* every axis k but the given one keeps its length, axis a has length 1
RowShape(sp, a) == [k \in 1..Len(sp.axes) |-> IF k = a THEN 1 ELSE sp.axes[k].b]
Row(sp, a, b) ==
  Slice(Shape(sp), sp.data,
        [k \in 1..Len(sp.axes) |-> IF k = a THEN b ELSE 0], RowShape(sp, a))
Rows(sp, a) == RForce([i \in 1..sp.axes[a].b |-> RForce(Row(sp, a, i - 1))])
\* the spectrum whose rows along axis a are given
WithRows(sp, a, rows) ==
  LET sh == Shape(sp) rs == RowShape(sp, a) IN
  [sp EXCEPT !.data = RForce([c \in 1..Len(sp.data) |->
     LET u == Unflat(sh, c - 1) IN
     rows[u[a] + 1][Flat(rs, [u EXCEPT ![a] = 0]) + 1]])]
ZeroRow(sp, a) == [c \in 1..Prod(RowShape(sp, a)) |-> "0"]
OthersOf(sp, a) == Marginal(Shape(sp), sp.data, (1..Len(sp.axes)) \ {a})

Centre(ax, b) == RAdd(ax.lo, RMul(RAdd(b, "1/2"), Width(ax)))
Nearest(p) == RFloor(RAdd(p, "1/2"))
Dyadic(x) == LET y == RMul(x, 1024) IN RLt(RAbs(y), "1e9") /\ REq(y, RFloor(y))
Exact(ax) == Dyadic(ax.lo) /\ Dyadic(Width(ax))

-----------------------------------------------------------------------------
(* Moving by a whole number k of bins.                                       *)
ShiftBins(sp, a, k) ==
  LET r == Rows(sp, a) n == sp.axes[a].b IN
  WithRows(sp, a, [i \in 1..n |->
     IF i - k \in 1..n THEN r[i - k] ELSE ZeroRow(sp, a)])
Whole(sp, a, v) ==
  LET q == RDiv(v, Width(sp.axes[a])) IN RClose(q, Nearest(q), "0", "1e-9")
NearlyWhole(sp, a, v) ==
  LET q == RDiv(v, Width(sp.axes[a])) IN RClose(q, Nearest(q), "0", "1e-5")

-----------------------------------------------------------------------------
(* Any other move: bin i receives what the spline of degree deg through the  *)
(* marginal spectrum says about the position it comes from; over the other   *)
(* axes it is distributed like the two source bins around that position, in  *)
(* proportion to the parts of them the moved bin covers.  The result is      *)
(* normalised to the total of the source.                                    *)
Origin(ax, how, v, i) ==
  LET x == Centre(ax, i) IN IF how = "scale" THEN RDiv(x, v) ELSE RSub(x, v)
Inside(ax, o) == RLe(ax.lo, o) /\ RLt(o, ax.hi)
\* rounding decides whether the origin is inside
Unclear(ax, how, v) ==
  ~(how = "shift" /\ Exact(ax) /\ Dyadic(v)) /\
  \E i \in 0..(ax.b - 1) :
     LET p == RDiv(RSub(Origin(ax, how, v, i), ax.lo), Width(ax)) IN
     RClose(p, "0", "0", "1e-9") \/ RClose(p, ax.b, "0", "1e-9")
Held(ax, o) ==
  LET h == RDiv(Width(ax), 2) IN
  IF RLt(o, RAdd(ax.lo, h)) THEN RAdd(ax.lo, h)
  ELSE IF RLt(RSub(ax.hi, h), o) THEN RSub(ax.hi, h) ELSE RNorm(o)
MinR(x, y) == IF RLt(x, y) THEN x ELSE y
MaxR(x, y) == IF RLt(x, y) THEN y ELSE x
Area(a, b, sa, sb) == RMul("1/2", RMul(RAbs(RSub(b, a)), RAbs(RAdd(sa, sb))))
\* <<neighbouring bin, share of bin b, share of the neighbour>> of a bin of
\* width w at p, b being the bin that holds p
Shares(ax, m, deg, p, b) ==
  LET w == Width(ax) h == RDiv(w, 2) c == Centre(ax, b)
      S(u, v) == RSpline([i \in 1..ax.b |-> Centre(ax, i - 1)], m, deg, <<u, v>>)
  IN IF RLt(p, c)
     THEN LET e == RSub(c, h) x == MinR(RAdd(p, h), RSub(ax.hi, h)) y == RSub(p, h)
              s1 == S(e, x) s2 == S(y, e)
          IN IF b = 0 THEN <<0, "1", "0">>
             ELSE <<b - 1, Area(e, x, s1[1], s1[2]), Area(y, e, s2[1], s2[2])>>
     ELSE LET e == RAdd(c, h) x == MaxR(RSub(p, h), RAdd(ax.lo, h)) y == RAdd(p, h)
              s1 == S(x, e) s2 == S(e, y)
          IN IF b = ax.b - 1 THEN <<b, "1", "0">>
             ELSE <<b + 1, Area(x, e, s1[1], s1[2]), Area(e, y, s2[1], s2[2])>>
Mix(k1, r1, k2, r2) == RAddSeq(RScaleSeq(k1, r1), RScaleSeq(k2, r2))
MovedRow(sp, a, rows, m, deg, p, b, y) ==
  LET s == Shares(sp.axes[a], m, deg, p, b)
      r1 == rows[b + 1] r2 == rows[s[1] + 1]
      t1 == RSum(r1) t2 == RSum(r2)
      all == RAdd(s[2], s[3])
  IN IF REq(all, "0") \/ (RLe(t1, "0") /\ RLe(t2, "0")) THEN ZeroRow(sp, a)
     ELSE IF RLe(t1, "0") THEN RScaleSeq(RDiv(y, t2), r2)
     ELSE IF RLe(t2, "0") THEN RScaleSeq(RDiv(y, t1), r1)
     ELSE Mix(RMul(RDiv(s[2], all), RDiv(y, t1)), r1,
              RMul(RDiv(s[3], all), RDiv(y, t2)), r2)
MovedRaw(sp, a, how, v, deg) ==
  LET ax == sp.axes[a] n == ax.b
      rows == Rows(sp, a)
      m == RForce([i \in 1..n |-> RSum(rows[i])])
      p == RForce([i \in 1..n |-> Held(ax, Origin(ax, how, v, i - 1))])
      y == RSpline([i \in 1..n |-> Centre(ax, i - 1)], m, deg, p)
  IN RForce([i \in 1..n |->
       IF ~Inside(ax, Origin(ax, how, v, i - 1)) \/ RLe(y[i], "0") THEN ZeroRow(sp, a)
       ELSE LET b == RFloor(Snap(Pos(ax, p[i])))
            IN MovedRow(sp, a, rows, m, deg, p[i], IF b >= n THEN n - 1 ELSE b, y[i])])
Remaining(rows) == RSum([i \in 1..Len(rows) |-> RSum(rows[i])])
Moved(sp, a, how, v, deg) ==
  LET rows == MovedRaw(sp, a, how, v, deg)
      left == Remaining(rows)
  IN IF RLe(left, "0") THEN [sp EXCEPT !.data = [c \in 1..Len(sp.data) |-> "0"]]
     ELSE WithRows(sp, a, [i \in 1..Len(rows) |->
                            RScaleSeq(RDiv(Total(sp), left), rows[i])])
\* what remains in range is more than rounding noise of the spline
Substantial(sp, a, how, v, deg) ==
  RLt(RMul("1e-6", Total(sp)), Remaining(MovedRaw(sp, a, how, v, deg)))

-----------------------------------------------------------------------------
(* Smearing.  s is [kind: "ly" | "res" | "rad", res, poisson, ns].           *)
ResolutionOk(kind, r) ==
  RLt("0", r) /\ (kind = "res" => RLt(r, "1"))
LightYield(s) == IF s.kind = "ly" THEN s.res ELSE RDiv("1", RMul(s.res, s.res))
Sigma(s, x) == CASE s.kind = "ly" -> RSqrt(RDiv(x, s.res))
                 [] s.kind = "res" -> RMul(s.res, RSqrt(x))
                 [] s.kind = "rad" -> s.res
Bounds(s, m, sigma) == <<RSub(m, RMul(s.ns, sigma)), RAdd(m, RMul(s.ns, sigma))>>
GaussShape(x, m, sigma) ==
  LET d == RDiv(RSub(x, m), sigma) IN RExp(RNeg(RDiv(RMul(d, d), 2)))
Gauss(x, m, sigma) == RDiv(GaussShape(x, m, sigma), RMul(sigma, "2.5066282746310002"))
Photons(s, x) == LET p == RMul(x, LightYield(s)) IN
                 IF RClose(p, Nearest(p), "0", "1e-9") THEN Nearest(p) ELSE RFloor(p)
PoissonOf(s, x, m) ==
  LET n == Photons(s, x) lam == RMul(m, LightYield(s))
  IN RExp(RSub(RSub(RMul(n, RLn(lam)), RLnFact(n)), lam))
PhotonsUnclear(s, ax) ==
  s.kind # "rad" /\ s.poisson /\
  \E i \in 0..(ax.b - 1) :
     LET p == RMul(Centre(ax, i), LightYield(s)) IN
     RClose(p, Nearest(p), "0", "1e-6") /\ ~(Exact(ax) /\ s.kind = "ly" /\ REq(p, Nearest(p)))
Response(s, x, m) == IF s.kind # "rad" /\ s.poisson THEN PoissonOf(s, x, m)
                     ELSE GaussShape(x, m, Sigma(s, m))
\* bins this far away still receive content of bin b
ReachR(s, ax, b) == RDiv(RMul(s.ns, Sigma(s, Centre(ax, b))), Width(ax))
Reach(s, ax, b) == LET q == ReachR(s, ax, b) IN
                   IF RLt(ax.b, q) THEN ax.b ELSE Nearest(q)
ReachUnclear(s, ax) ==
  \E b \in 0..(ax.b - 1) :
     LET q == RAdd(ReachR(s, ax, b), "1/2") IN
     RLt(q, ax.b + 1) /\ RClose(q, Nearest(q), "0", "1e-9")
Weights(s, ax, b) ==
  LET r == Reach(s, ax, b)
      w == RForce([j \in 1..ax.b |->
             IF j - 1 >= b - r /\ j - 1 <= b + r
             THEN Response(s, Centre(ax, j - 1), Centre(ax, b)) ELSE "0"])
      t == RSum(w)
  IN RForce([j \in 1..ax.b |-> RDiv(w[j], t)])
\* the response itself vanishes numerically
NoResponse(s, ax) == s.kind # "rad" /\ s.poisson /\
  \E b \in 0..(ax.b - 1) :
     RLe(PoissonOf(s, Centre(ax, b), Centre(ax, b)), "1e-200")
Smeared(sp, a, s) ==
  LET ax == sp.axes[a] n == ax.b
      rows == Rows(sp, a)
      w == RForce([b \in 1..n |-> Weights(s, ax, b - 1)])
      len == Prod(RowShape(sp, a))
  IN WithRows(sp, a, RForce([j \in 1..n |->
       RForce([c \in 1..len |-> RDot([b \in 1..n |-> w[b][j]],
                                     [b \in 1..n |-> rows[b][c]])])]))

(* Random smearing: every whole entry of bin b is one draw [mean, sd, v]     *)
(* around the centre of b.                                                   *)
Whole0(x) == IF RLt(x, "0") THEN RCeil(x) ELSE RFloor(x)
Entries(sp) == RForce([c \in 1..Len(sp.data) |-> Whole0(sp.data[c])])
EntrySp(sp) == [sp EXCEPT !.data = Entries(sp)]
DrawnValue(s, d) ==
  IF d.d = "poisson" THEN RDiv(d.v, LightYield(s)) ELSE RAbs(d.v)
DrawFits(s, ax, d, b) ==
  IF s.kind # "rad" /\ s.poisson
  THEN d.d = "poisson" /\ RClose(d.m, RMul(Centre(ax, b), LightYield(s)), "1e-6", "0")
  ELSE d.d = "normal" /\ RClose(d.m, Centre(ax, b), "1e-6", "0")
       /\ RClose(d.s, Sigma(s, Centre(ax, b)), "1e-6", "0")
=============================================================================
