----------------------------- MODULE MC_Config -----------------------------
(* A global configuration G assembled from two spectral ones (A, B), another  *)
(* global one (H) and single parameters, and round-tripped at any moment.     *)
EXTENDS Config, TLC, Json
CONSTANTS MaxOps, SingleNames
VARIABLES cf, last, hist
vars == <<cf, last, hist>>
View == <<cf, last>>

P(nm, kind, dim, v) ==
  [nm |-> nm, kind |-> kind, dim |-> dim, lo |-> "0.5", hi |-> "1.5", bins |-> 3,
   prior |-> IF kind = "axis" THEN "0" ELSE v, sigma |-> IF kind \in {"rate", "axis"} THEN "none" ELSE "0.25", log |-> FALSE, base |-> "none",
   dev |-> (kind = "scale"), cur |-> "none", best |-> IF kind = "axis" THEN "none" ELSE v, pen |-> "none"]
E(nm, kind, dim, sort, v) == [key |-> nm, sort |-> sort, par |-> P(nm, kind, dim, v)]
A0 == [type |-> "F", name |-> "fa", sp |-> "Te130", ents |-> <<E("rate", "rate", "none", "", "10")>>]
B0 == [type |-> "F", name |-> "fb", sp |-> "Bi214",
       ents |-> <<E("rate", "rate", "none", "", "20"), E("rate_b", "rate", "none", "", "30")>>]
H0 == [type |-> "G", name |-> "h", sp |-> "",
       ents |-> <<E("radial3_shift", "shift", "radial3", "global", "0.75"),
                  E("x_rate", "rate", "none", "spectra", "7"),
                  E("energy_scale", "scale", "energy", "global", "1.25")>>]
S0 == [type |-> "S", name |-> "s", sp |-> "",
       ents |-> <<[key |-> "energy_mc", sort |-> "", par |-> P("energy_mc", "axis", "none", "1")]>>]
G0 == [type |-> "G", name |-> "g", sp |-> "", ents |-> <<>>]
Singles == {P(n, KindOf(Strip("energy", n)), "energy", "1") : n \in SingleNames}
      \cup {P("Te130_rate", "rate", "none", "5"), P("rate", "rate", "none", "6"),
            P("energy_mc_scale", "scale", "energy_mc", "1")}
SortOf(p) == IF p.kind = "rate" THEN "spectra" ELSE "global"

New(id, c) == [op |-> "new", id |-> id, type |-> c.type, name |-> c.name, sp |-> c.sp,
               ents |-> c.ents]
Init == /\ cf = [G |-> G0, A |-> A0, B |-> B0, H |-> H0, S |-> S0]
        /\ last = "none"
        /\ hist = <<New("G", G0), New("A", A0), New("B", B0), New("H", H0), New("S", S0)>>
Add(p) == /\ cf' = [cf EXCEPT !.G = AddPar(@, p, SortOf(p))]
          /\ last' = "added"
          /\ hist' = Append(hist, [op |-> "addpar", id |-> "G", par |-> p, sort |-> SortOf(p)])
AddBad == /\ last' = "rejected"
          /\ \E s \in {"sideways", ""} :
               hist' = Append(hist, [op |-> "addpar", id |-> "G", par |-> P("rate", "rate", "none", "1"), sort |-> s])
          /\ UNCHANGED cf
Merge(d) == /\ cf' = IF AddConfigOk(cf.G, cf[d]) THEN [cf EXCEPT !.G = AddConfig(@, cf[d])] ELSE cf
            /\ last' = IF AddConfigOk(cf.G, cf[d]) THEN "merged" ELSE "rejected"
            /\ hist' = Append(hist, [op |-> "addcfg", id |-> "G", src |-> d])
Trip(basic, via) ==
  /\ cf' = [cf EXCEPT !.G = RoundTrip(@, basic, "g")]
  /\ last' = "loaded"
  /\ hist' = Append(hist, [op |-> "trip", id |-> "G", to |-> "G", basic |-> basic, via |-> via,
                           asked |-> "g", f1 |-> "none", f2 |-> "none"])
Next == /\ Len(hist) - 5 < MaxOps
        /\ \/ \E p \in Singles : Add(p)
           \/ AddBad
           \/ \E d \in {"A", "B", "H", "S"} : Merge(d)
           \/ \E b \in BOOLEAN, v \in {"dict", "yaml"} : Trip(b, v)
NextE == Next /\ PrintT(ToJson(hist'))

TypeOK == \A d \in DOMAIN cf : Cardinality(KeySet(cf[d])) = Len(cf[d].ents)
OwnName == \A i \in 1..Len(cf.G.ents) : cf.G.ents[i].par.nm = cf.G.ents[i].key
AlwaysDumpable == Dumpable(cf.G)
\* a round trip keeps the entries, only grouping the global ones
TripKeeps ==
  LET r == RoundTrip(cf.G, FALSE, "g") IN
  /\ {r.ents[i] : i \in 1..Len(r.ents)} = {cf.G.ents[i] : i \in 1..Len(cf.G.ents)}
  /\ Len(r.ents) = Len(cf.G.ents)
  /\ RoundTrip(r, FALSE, "g") = r
  /\ OfSort(r, "spectra") = OfSort(cf.G, "spectra")
  /\ \A i, j \in 1..Len(r.ents) :
       (i < j /\ r.ents[i].sort = r.ents[j].sort /\ r.ents[i].par.dim = r.ents[j].par.dim)
          => PosOf(cf.G, r.ents[i].key) < PosOf(cf.G, r.ents[j].key)
TripOthers == \A d \in {"A", "B", "S"} : RoundTrip(cf[d], FALSE, cf[d].name) = cf[d]
BasicForgets == LET r == RoundTrip(cf.G, TRUE, "g") IN
  \A i \in 1..Len(r.ents) : r.ents[i].par.best = "none" /\ r.ents[i].par.prior = cf.G.ents[PosOf(cf.G, r.ents[i].key)].par.prior
SourcesStay == cf.A = A0 /\ cf.B = B0 /\ cf.H = H0 /\ cf.S = S0
Grows == [][Len(cf'.G.ents) >= Len(cf.G.ents)]_vars
=============================================================================
