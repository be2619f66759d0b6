------------------------------- MODULE Params -------------------------------
(* echidna/core/parameter.py: the grid of values of a fit parameter (C07) and *)
(* the geometry of a spectrum axis (C08).                                     *)
(*                                                                            *)
(* A fit parameter is [lo, hi, b, prior, log, dev, sigma, dim]; its grid is fully *)
(* determined by these fields (never by what they were when the grid was      *)
(* first asked for).                                                          *)
EXTENDS Integers, Sequences, RealK

Mode(p) == IF p.log THEN "log" ELSE IF p.dev THEN "dev" ELSE "linear"

Linear(lo, hi, n) ==
  [i \in 1..n |-> IF n = 1 THEN RNorm(lo)
                  ELSE RAdd(lo, RDiv(RMul(i - 1, RSub(hi, lo)), n - 1))]
\* grids for which the specification says something
GridDefined(p) ==
  /\ RLt(p.lo, p.hi) /\ p.b >= 2
  /\ CASE Mode(p) = "linear" -> TRUE
       [] Mode(p) = "log" -> RLt("0", p.lo)
       [] Mode(p) = "dev" -> /\ RLe(p.lo, p.prior) /\ RLe(p.prior, p.hi)
                             /\ (p.b >= 3 \/ REq(p.lo, p.prior) \/ REq(p.hi, p.prior))

Span(p) == RSub(p.hi, p.lo)
Near(p, x, y) == RClose(x, y, "1e-9", RMul("1e-9", Span(p)))
Increasing(v) == \A i \in 1..(Len(v) - 1) : RLt(v[i], v[i+1])
\* log mode: equal steps in ln(v)
LogSpaced(p, v) ==
  LET step == RDiv(RSub(RLn(p.hi), RLn(p.lo)), p.b - 1) IN
  \A i \in 1..Len(v) : RClose(v[i], RExp(RAdd(RLn(p.lo), RMul(i - 1, step))), "1e-9", "0")
\* deviation mode: on either side of the prior equal steps in ln(1 + distance)
Distance(p, x) == RLn(RAdd("1", RAbs(RSub(x, p.prior))))
DevSpaced(p, v) ==
  LET At == {i \in 1..Len(v) : Near(p, v[i], p.prior)} IN
  At # {} =>
  LET c == CHOOSE i \in At : TRUE
      StepOk(n, total, k, x) == RClose(Distance(p, x), RMul(k, RDiv(total, n)), "1e-6", "1e-6")
  IN /\ \A i \in 1..(c - 1) : StepOk(c - 1, Distance(p, p.lo), c - i, v[i])
     /\ \A i \in (c + 1)..Len(v) : StepOk(Len(v) - c, Distance(p, p.hi), i - c, v[i])

\* names of what is wrong with grid v of parameter p
GridFaults(p, v) ==
  IF ~GridDefined(p) THEN {}
  ELSE IF Len(v) # p.b THEN {"number_of_points"}
  ELSE (IF Increasing(v) THEN {} ELSE {"increasing"})
    \cup (IF Near(p, v[1], p.lo) THEN {} ELSE {"low_end"})
    \cup (IF Near(p, v[Len(v)], p.hi) THEN {} ELSE {"high_end"})
    \cup (CASE Mode(p) = "linear" ->
                 IF \A i \in 1..Len(v) : Near(p, v[i], Linear(p.lo, p.hi, p.b)[i])
                 THEN {} ELSE {"linear_spacing"}
            [] Mode(p) = "log" -> IF LogSpaced(p, v) THEN {} ELSE {"log_spacing"}
            [] Mode(p) = "dev" ->
                 (IF \E i \in 1..Len(v) : Near(p, v[i], p.prior) THEN {} ELSE {"prior_missing"})
                 \cup (IF DevSpaced(p, v) THEN {} ELSE {"deviation_spacing"}))

\* what the user is warned about: a grid that misses the prior (one that is
\* there up to rounding is not missed; between the tolerances either will do),
\* or values that the kind of parameter does not allow
Close(v, x, tol) ==      \* some v[i] is x
  IF REq(x, "0") THEN \E i \in 1..Len(v) :
                        RLe(RAbs(v[i]), RMul(tol, RAdd(RAbs(v[1]), RAbs(v[Len(v)]))))
  ELSE \E i \in 1..Len(v) : RLe(RAbs(RSub(v[i], x)), RMul(tol, RAbs(x)))
HasPrior(v, x) == IF Close(v, x, "1e-13") THEN "yes" ELSE IF Close(v, x, "1e-11") THEN "?" ELSE "no"
Allowed(cls, v) == cls = "rate" => \A i \in 1..Len(v) : RLe("0", v[i])
Warnings(cls, v, x) ==   \* how many, or -1
  LET h == HasPrior(v, x) IN
  IF h = "?" THEN -1 ELSE (IF h = "no" THEN 1 ELSE 0) + (IF Allowed(cls, v) THEN 0 ELSE 1)

\* the same grid constructed (used by the design model)
DevGrid(p) ==
  LET dl == Distance(p, p.lo)  dh == Distance(p, p.hi)
      share == RFloor(RAdd("1/2", RMul(RDiv(RSub(p.prior, p.lo), Span(p)), p.b + 1)))
      s1 == IF RLt(p.prior, p.hi) /\ share > p.b - 1 THEN p.b - 1 ELSE share
      nl == IF REq(p.prior, p.lo) THEN 1 ELSE IF s1 < 2 THEN 2 ELSE s1
      nh == p.b + 1 - nl
  IN [i \in 1..p.b |->
       IF i < nl THEN RSub(RAdd(p.prior, "1"), RExp(RMul(nl - i, RDiv(dl, nl - 1))))
       ELSE IF i = nl THEN p.prior
       ELSE RSub(RAdd(p.prior, RExp(RMul(i - nl, RDiv(dh, nh - 1)))), "1")]
Grid(p) ==
  CASE Mode(p) = "linear" -> Linear(p.lo, p.hi, p.b)
    [] Mode(p) = "log" ->
         [i \in 1..p.b |-> RExp(RAdd(RLn(p.lo),
            RMul(i - 1, RDiv(RSub(RLn(p.hi), RLn(p.lo)), p.b - 1))))]
    [] Mode(p) = "dev" -> DevGrid(p)

\* updates: u is a sequence of [k: field, v: value]
SetField(p, k, v) ==
  CASE k = "low" -> [p EXCEPT !.lo = v]
    [] k = "high" -> [p EXCEPT !.hi = v]
    [] k = "bins" -> [p EXCEPT !.b = RFloor(v)]
    [] k = "prior" -> [p EXCEPT !.prior = v]
    [] k = "sigma" -> [p EXCEPT !.sigma = v]
    [] k = "dimension" -> [p EXCEPT !.dim = v]
    [] k = "logscale" -> [p EXCEPT !.log = (v = "1")]
    [] k = "logscale_deviation" -> [p EXCEPT !.dev = (v = "1")]
    [] OTHER -> p
RECURSIVE SetAll(_, _)
SetAll(p, u) == IF u = <<>> THEN p ELSE SetAll(SetField(p, Head(u).k, Head(u).v), Tail(u))
FitKeys == {"low", "high", "bins", "prior", "sigma", "base", "dimension", "logscale", "logscale_deviation"}
SetAccepted(u, keys) == \A i \in 1..Len(u) : u[i].k \in keys

-----------------------------------------------------------------------------
(* Axis geometry.  An axis is [lo, hi, b].                                    *)
AxWidth(a) == RDiv(RSub(a.hi, a.lo), a.b)
AxEdge(a, i) == RAdd(a.lo, RMul(i, AxWidth(a)))
AxCentre(a, i) == RAdd(a.lo, RMul(RAdd(i, "1/2"), AxWidth(a)))
AxTol(a) == RAdd(RMul("1e-9", AxWidth(a)), RMul("1e-12", RAdd(RAbs(a.lo), RAbs(a.hi))))
\* bin i is right for x, allowing for rounding at an edge
BinOk(a, x, i) ==
  /\ i \in 0..(a.b - 1) \/ (i = a.b /\ RClose(x, a.hi, "0", AxTol(a)))
  /\ RLe(RSub(AxEdge(a, i), AxTol(a)), x)
  /\ RLt(x, RAdd(AxEdge(a, i + 1), AxTol(a)))
\* bin of an exactly represented position
BinExact(a, x) == RFloor(RDiv(RSub(x, a.lo), AxWidth(a)))
Inside(a, x) == RLe(a.lo, x) /\ RLe(x, a.hi)
\* r is a nearest edge of x
RoundOk(a, x, r) ==
  /\ LET k == RFloor(RAdd("1/2", RDiv(RSub(r, a.lo), AxWidth(a)))) IN
     k \in 0..a.b /\ RClose(r, AxEdge(a, k), "0", AxTol(a))
  /\ RLe(RAbs(RSub(r, x)), RAdd(RDiv(AxWidth(a), 2), AxTol(a)))
=============================================================================
