------------------------------ MODULE MC_Decay -------------------------------
(* Design check of the conversions: one decay seen as four quantities, and   *)
(* converted from one to the other along any path.  Whatever the path, each  *)
(* quantity keeps its value.  Behaviours are replayed on the real code.      *)
EXTENDS Decay, TLC, Json
CONSTANTS MaxOps, Isos, Starts, Times
VARIABLES iso, n, t, q, v, seen, hist
View == <<iso, n, t, q, v, seen>>
K == [me |-> "510998.91", amu |-> "1.660538921e-27", na |-> "6.02214129e23",
      load |-> "0.003", radius |-> "5997", dens |-> "8.628e-7"]
Te == [A |-> "129.906229", N |-> "127.6", ab |-> "0.3408", G |-> "3.69e-14", M |-> "4.03",
       load |-> "none", radius |-> "none", dens |-> "none"]
Xe == [A |-> "135.907219", N |-> "135.5", ab |-> "0.9093", G |-> "1.433e-14", M |-> "3.33",
       load |-> "0.0244", radius |-> "1540", dens |-> "7.5628e-7"]
IsoSet == {Te, Xe}
StartSet == {<<"half_life", "5.17e25">>, <<"counts", "31.2">>, <<"eff_mass", "0.0999">>,
             <<"activity", "50.4">>}
Init == \E i \in Isos, s \in Starts, m \in {"none", "7.4694e26"}, y \in Times :
  /\ iso = i /\ n = m /\ t = y /\ q = s[1] /\ v = s[2] /\ seen = {s}
  /\ hist = <<[op |-> "new", o |-> i]>>
Time == IF t = "none" THEN "5" ELSE t
N == IF n = "none" THEN Atoms(K, IsoOf(iso, K), Plain) ELSE n
Next == \E to \in Quantities :
  /\ <<q, to>> \in Conversions /\ Len(hist) <= MaxOps
  /\ q' = to
  /\ v' = Convert(K, iso, q, to, v, N, Time)
  /\ seen' = seen \cup {<<q', v'>>}
  /\ hist' = Append(hist, [op |-> "convert", from |-> q, to |-> to, n |-> n, t |-> t,
                           x |-> IF Len(hist) = 1 THEN v ELSE "prev"])
  /\ UNCHANGED <<iso, n, t>>
NextE == Next /\ (Len(hist') > MaxOps => PrintT(ToJson(hist')))
-----------------------------------------------------------------------------
PathFree == \A a, b \in seen : a[1] = b[1] => Close(a[2], b[2])
\* longer exposure, more atoms: more counts for one half-life
Linear ==
  LET c(m, y) == Convert(K, iso, q, "counts", v, m, y) IN
  q \in {"half_life", "eff_mass"} =>
    /\ Close(c(RMul("2", N), Time), RMul("2", c(N, Time)))
    /\ Close(c(N, RMul("3", Time)), RMul("3", c(N, Time)))
\* atoms are proportional to loading, abundance and mass
AtomsScale ==
  LET i == IsoOf(iso, K)
      n0 == Atoms(K, i, Plain) IN
  /\ Close(Atoms(K, [i EXCEPT !.load = RMul("2", @)], Plain), RMul("2", n0))
  /\ Close(Atoms(K, [i EXCEPT !.radius = RMul("2", @)], Plain), RMul("8", n0))
  /\ Close(Atoms(K, i, [Plain EXCEPT !.target = TargetMass(i, Plain)]), n0)
\* smaller masses live longer
Falling == q = "eff_mass" =>
  RLt(Convert(K, iso, "eff_mass", "half_life", RMul("2", v), N, Time),
      Convert(K, iso, "eff_mass", "half_life", v, N, Time))
=============================================================================
