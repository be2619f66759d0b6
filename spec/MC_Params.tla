------------------------------ MODULE MC_Params ------------------------------
(* A fit parameter with a lazily generated grid (`cache`), updated and read   *)
(* in every order; and an axis.  The cache must never be outdated.            *)
EXTENDS Params, TLC, Json
CONSTANTS MaxOps, Modes, Lows, Highs, BinsSet, Priors
VARIABLES par, cache, hist
vars == <<par, cache, hist>>
View == <<par, cache>>

Pars == {[lo |-> l, hi |-> h, b |-> b, prior |-> q, log |-> (m = "log"), dev |-> (m = "dev")] :
            l \in Lows, h \in Highs, b \in BinsSet, q \in Priors, m \in Modes}
Init == /\ par \in {p \in Pars : p.b = 3 /\ p.lo = "1" /\ p.hi = "9"}
        /\ cache = <<>>
        /\ hist = <<[op |-> "fit", cls |-> "scale", low |-> par.lo, high |-> par.hi,
                     bins |-> par.b, prior |-> par.prior, sigma |-> "none",
                     log |-> par.log, dev |-> par.dev]>>
Updates == {<<[k |-> "low", v |-> l]>> : l \in Lows}
      \cup {<<[k |-> "high", v |-> h]>> : h \in Highs}
      \cup {<<[k |-> "bins", v |-> b]>> : b \in {"3", "4", "7"}}
      \cup {<<[k |-> "prior", v |-> q]>> : q \in Priors}
      \cup {<<[k |-> "logscale", v |-> "1"]>>, <<[k |-> "logscale_deviation", v |-> "1"]>>,
            <<[k |-> "low", v |-> "2"], [k |-> "sideways", v |-> "2"]>>}
Update(u) ==
  /\ hist' = Append(hist, [op |-> "set", kw |-> u])
  /\ par' = SetAll(par, u)
  /\ cache' = <<>>
Read ==
  /\ hist' = Append(hist, [op |-> "grid"])
  /\ cache' = IF cache = <<>> /\ GridDefined(par) THEN Grid(par) ELSE cache
  /\ UNCHANGED par
Check ==
  /\ hist' = Append(hist, [op |-> "check"])
  /\ cache' = IF cache = <<>> /\ GridDefined(par) THEN Grid(par) ELSE cache
  /\ UNCHANGED par
Next == /\ Len(hist) <= MaxOps
        /\ (Read \/ Check \/ \E u \in Updates : Update(u))
NextE == Next /\ PrintT(ToJson(hist'))

CacheCurrent == cache # <<>> => GridFaults(par, cache) = {}
GridSound == GridDefined(par) => GridFaults(par, Grid(par)) = {}
\* a grid built around its prior is never warned about
DevHasPrior == GridDefined(par) /\ par.dev /\ ~par.log => HasPrior(Grid(par), par.prior) = "yes"
\* index lookups are a bijection
RoundTrip == GridDefined(par) =>
  LET g == Grid(par) IN \A i \in 1..Len(g) :
     {j \in 1..Len(g) : g[j] = g[i]} = {i}
\* axis geometry (on the same bounds)
AxisSound ==
  LET a == [lo |-> par.lo, hi |-> par.hi, b |-> par.b] IN
  RLt(a.lo, a.hi) =>
    \A i \in 0..(a.b - 1) :
      /\ BinOk(a, AxCentre(a, i), i) /\ BinExact(a, AxCentre(a, i)) = i
      /\ BinExact(a, AxEdge(a, i)) = i
      /\ ~BinOk(a, AxCentre(a, i), i + 1)
      /\ RoundOk(a, AxEdge(a, i), AxEdge(a, i))
      /\ RoundOk(a, AxCentre(a, i), AxEdge(a, i)) /\ RoundOk(a, AxCentre(a, i), AxEdge(a, i + 1))
      /\ ~RoundOk(a, AxEdge(a, i), AxEdge(a, i + 1))
=============================================================================
