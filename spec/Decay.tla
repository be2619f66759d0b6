-------------------------------- MODULE Decay --------------------------------
(* Conversions between the quantities of a double-beta isotope               *)
(* (echidna/calc/decay.py).  Property C22.                                   *)
(*                                                                           *)
(* An isotope is [A, N, ab, G, M, load, radius, dens]: atomic weights of the *)
(* isotope and of the element, abundance, phase space, matrix element,       *)
(* loading, radius (mm) and density (kg/mm^3).  The constants of nature are  *)
(* k = [me, amu, na].  Quantities: "counts", "activity" (per year),          *)
(* "half_life" (years), "eff_mass" (eV).                                     *)
EXTENDS RealK, Sequences, Integers

Quantities == {"counts", "activity", "half_life", "eff_mass"}
Conversions == {<<"half_life", "activity">>, <<"activity", "half_life">>,
                <<"eff_mass", "half_life">>, <<"half_life", "eff_mass">>,
                <<"activity", "counts">>, <<"counts", "activity">>,
                <<"counts", "eff_mass">>, <<"eff_mass", "counts">>,
                <<"half_life", "counts">>, <<"counts", "half_life">>}
UsesTime(c) == "counts" \in {c[1], c[2]}
UsesAtoms(c) == c \notin {<<"eff_mass", "half_life">>, <<"half_life", "eff_mass">>,
                          <<"activity", "counts">>, <<"counts", "activity">>}
Ln2 == RLn("2")
Pi == "3.14159265358979323846"
Sq(x) == RMul(x, x)

(* Number of atoms.  Each argument is "none" or a number: a target mass      *)
(* settles it, otherwise the mass of scintillator, otherwise its volume.     *)
Or(x, y) == IF x = "none" THEN y ELSE x
Fraction(x) == RLe("0", x) /\ RLe(x, "1")
AtomsRejected(iso, a) ==
  ~Fraction(Or(a.load, iso.load)) \/ RLe(Or(a.radius, iso.radius), "0")
Volume(r) == RMul(RDiv(RMul("4", Pi), "3"), RMul(r, Sq(r)))
ScintMass(iso, a) ==
  Or(a.scint, RMul(Or(a.dens, iso.dens), Volume(Or(a.radius, iso.radius))))
TargetMass(iso, a) ==
  Or(a.target, RMul(RMul(RMul(iso.ab, RDiv(iso.A, iso.N)), Or(a.load, iso.load)),
                    ScintMass(iso, a)))
Atoms(k, iso, a) == RDiv(RMul(TargetMass(iso, a), k.na), RDiv(iso.A, "1000"))
Plain == [load |-> "none", dens |-> "none", target |-> "none", scint |-> "none", radius |-> "none"]

(* What an isotope is made of: "none" stands for the SNO+ value.             *)
IsoRejected(o) ==
  \/ ~Fraction(o.ab)
  \/ o.load # "none" /\ ~Fraction(o.load)
  \/ o.radius # "none" /\ RLe(o.radius, "0")
IsoOf(o, k) == [o EXCEPT !.load = Or(@, k.load), !.radius = Or(@, k.radius), !.dens = Or(@, k.dens)]

\* half-life times this is the squared inverse mass, in electron masses
Rate2(iso) == RMul(iso.G, Sq(iso.M))
Step(k, iso, from, to, x, n, t) ==
  CASE from = "half_life" /\ to = "activity" -> RDiv(RMul(Ln2, n), x)
    [] from = "activity" /\ to = "half_life" -> RDiv(RMul(Ln2, n), x)
    [] from = "eff_mass" /\ to = "half_life" -> RDiv(Sq(k.me), RMul(Rate2(iso), Sq(x)))
    [] from = "half_life" /\ to = "eff_mass" -> RSqrt(RDiv(Sq(k.me), RMul(Rate2(iso), x)))
    [] from = "activity" /\ to = "counts" -> RMul(x, t)
    [] from = "counts" /\ to = "activity" -> RDiv(x, t)
\* through the neighbours: eff_mass - half_life - activity - counts
Line == <<"eff_mass", "half_life", "activity", "counts">>
PlaceOf(q) == CHOOSE i \in 1..4 : Line[i] = q
RECURSIVE Convert(_, _, _, _, _, _, _)
Convert(k, iso, from, to, x, n, t) ==
  IF from = to THEN x
  ELSE LET i == PlaceOf(from) j == IF PlaceOf(to) > i THEN i + 1 ELSE i - 1 IN
       Convert(k, iso, Line[j], to, Step(k, iso, from, Line[j], x, n, t), n, t)
ConvRejected(c, x, t) ==
  \/ UsesTime(c) /\ RLe(t, "0")
  \/ c[1] = "eff_mass" /\ RLe(x, "0")
\* x is a physical value, or the conversion does not divide by it
ConvClear(c, x) == RLt("0", x) \/ (REq(x, "0") /\ PlaceOf(c[1]) > 2 /\ PlaceOf(c[2]) > 2)
\* no atoms, no decays
AtomsClear(c, n) == RLt("0", n) \/ (REq(n, "0") /\ PlaceOf(c[1]) <= 2 /\ PlaceOf(c[2]) > 2)
Close(a, b) == RClose(a, b, "1e-9", "0")
(* The constants must be those of nature (and of the detector).              *)
NaturalAt(k) ==
  /\ RClose(k.me, "510998.9", "1e-5", "0")
  /\ RClose(k.amu, "1.660539e-27", "1e-5", "0")
  /\ RClose(k.na, "6.022141e23", "1e-5", "0")
=============================================================================
