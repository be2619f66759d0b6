------------------------------- MODULE Config -------------------------------
(* echidna/core/config.py: ordered collections of parameters, their           *)
(* dictionary form, and the assembly of global fit configurations (C09, C25). *)
(*                                                                            *)
(* A parameter is a record [nm, kind, dim, lo, hi, bins, prior, sigma, log,   *)
(* base, dev, cur, best, pen]; numbers are texts, "none" is an unset field.   *)
(* A configuration is [type, name, sp, ents]; ents is the ordered sequence of *)
(* [key, sort, par] (sort: "global"/"spectra" in a global configuration).     *)
EXTENDS Integers, Sequences, FiniteSets, RealK

Keys(c) == [i \in 1..Len(c.ents) |-> c.ents[i].key]
KeySet(c) == {c.ents[i].key : i \in 1..Len(c.ents)}
PosOf(c, k) == CHOOSE i \in 1..Len(c.ents) : c.ents[i].key = k
Shape(c) == [i \in 1..Len(c.ents) |-> c.ents[i].par.bins]
OfSort(c, s) == SelectSeq(c.ents, LAMBDA e : e.sort = s)
NamesOf(es) == [i \in 1..Len(es) |-> es[i].par.nm]

\* one entry under its key: the last one wins, the place is the first one's
Put(ents, e) ==
  IF \E i \in 1..Len(ents) : ents[i].key = e.key
  THEN [i \in 1..Len(ents) |-> IF ents[i].key = e.key THEN e ELSE ents[i]]
  ELSE Append(ents, e)
RECURSIVE PutAll(_, _)
PutAll(ents, es) == IF es = <<>> THEN ents ELSE PutAll(Put(ents, Head(es)), Tail(es))

-----------------------------------------------------------------------------
(* Assembly.                                                                  *)
AddParOk(c, sort) == c.type # "G" \/ sort \in {"global", "spectra"}
AddPar(c, p, sort) ==
  [c EXCEPT !.ents = Put(@, [key |-> p.nm, sort |-> IF c.type = "G" THEN sort ELSE "", par |-> p])]

AddConfigOk(c, d) == c.type = "G" /\ d.type \in {"F", "G"}
\* what configuration d contributes to a global one
Contribution(d) ==
  IF d.type = "F"
  THEN [i \in 1..Len(d.ents) |->
          LET n == SCat(SCat(d.sp, "_"), d.ents[i].key) IN
          [key |-> n, sort |-> "spectra", par |-> [d.ents[i].par EXCEPT !.nm = n]]]
  ELSE LET own(es) == [i \in 1..Len(es) |-> [es[i] EXCEPT !.key = es[i].par.nm]]
       IN own(OfSort(d, "global")) \o own(OfSort(d, "spectra"))
AddConfig(c, d) == [c EXCEPT !.ents = PutAll(@, Contribution(d))]

-----------------------------------------------------------------------------
(* Dictionary form.  Sections of global parameters are kept per dimension, in *)
(* order of first appearance; inside, the dimension is dropped from the name. *)
Fields(p, basic) ==
  IF basic THEN [p EXCEPT !.cur = "none", !.best = "none", !.pen = "none"] ELSE p
Strip(dim, n) ==
  LET pre == SCat(dim, "_") IN
  IF SStartsWith(n, pre) THEN SSub(n, SLen(pre), SLen(n)) ELSE n
RECURSIVE Dims(_, _)
Dims(es, acc) ==
  IF es = <<>> THEN acc
  ELSE Dims(Tail(es), IF \E i \in 1..Len(acc) : acc[i] = Head(es).par.dim
                      THEN acc ELSE Append(acc, Head(es).par.dim))
Item(e, short, basic) == [short |-> short, par |-> Fields(e.par, basic)]
DumpGlobal(c, basic) ==
  LET es == OfSort(c, "global")  ds == Dims(es, <<>>) IN
  [d \in 1..Len(ds) |->
     LET mine == SelectSeq(es, LAMBDA e : e.par.dim = ds[d]) IN
     [dim |-> ds[d],
      items |-> [i \in 1..Len(mine) |-> Item(mine[i], Strip(ds[d], mine[i].par.nm), basic)]]]
DumpFlat(es, basic) == [i \in 1..Len(es) |-> Item(es[i], es[i].key, basic)]

KindOf(short) ==
  CASE short \in {"resolution", "resolution_ly"} -> "res"
    [] short = "shift" -> "shift" [] short = "scale" -> "scale" [] OTHER -> "unknown"
RECURSIVE Flatten(_)
Flatten(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flatten(Tail(s))
GlobalEntries(g) ==
  Flatten([d \in 1..Len(g) |->
     [i \in 1..Len(g[d].items) |->
        LET it == g[d].items[i]  n == SCat(SCat(g[d].dim, "_"), it.short) IN
        [key |-> n, sort |-> "global",
         par |-> [it.par EXCEPT !.nm = n, !.dim = g[d].dim, !.kind = KindOf(it.short)]]]])
FlatEntries(f, sort, kind) ==
  [i \in 1..Len(f) |-> [key |-> f[i].short, sort |-> sort,
     par |-> [f[i].par EXCEPT !.nm = f[i].short, !.kind = kind,
                              !.dim = IF kind = "axis" THEN @ ELSE "none"]]]
GlobalOk(g) == \A d \in 1..Len(g) : \A i \in 1..Len(g[d].items) : KindOf(g[d].items[i].short) # "unknown"
RatesOk(f) == \A i \in 1..Len(f) : SContains(f[i].short, "rate")
\* loading: sections g (global) and f (flat) of a configuration of type t
LoadOk(t, g, f) ==
  CASE t = "G" -> GlobalOk(g) /\ RatesOk(f)
    [] t = "F" -> RatesOk(f)
    [] t = "S" -> TRUE
Load(t, g, f, name, sp) ==
  [type |-> t, name |-> name, sp |-> sp,
   ents |-> CASE t = "G" -> PutAll(<<>>, GlobalEntries(g) \o FlatEntries(f, "spectra", "rate"))
              [] t = "F" -> FlatEntries(f, "", "rate")
              [] t = "S" -> FlatEntries(f, "", "axis")]
DefaultName(t) == CASE t = "G" -> "global_fit_config" [] t = "F" -> "spectral_fit_config"
                    [] t = "S" -> "config"
DumpG(c, basic) == IF c.type = "G" THEN DumpGlobal(c, basic) ELSE <<>>
DumpF(c, basic) == DumpFlat(IF c.type = "G" THEN OfSort(c, "spectra") ELSE c.ents, basic)
RoundTrip(c, basic, name) == Load(c.type, DumpG(c, basic), DumpF(c, basic), name, c.sp)
\* configurations whose dictionary form says everything about them
Dumpable(c) ==
  /\ c.type # "G" => c.ents # <<>>
  /\ \A i \in 1..Len(c.ents) :
       LET e == c.ents[i] IN
       /\ (c.type = "G" /\ e.sort = "global") =>
             /\ e.par.dim # "none" /\ e.key = e.par.nm
             /\ e.key = SCat(SCat(e.par.dim, "_"), Strip(e.par.dim, e.key))
             /\ KindOf(Strip(e.par.dim, e.key)) = e.par.kind
       /\ (c.type = "F" \/ e.sort = "spectra") => SContains(e.key, "rate") /\ e.par.kind = "rate"

\* names of the files a dump writes, given the name asked for ("none": default)
FileName(c, asked, default, suffix) ==
  LET n == IF asked = "none" THEN default
           ELSE IF asked = "" THEN SCat(c.name, suffix) ELSE asked
  IN IF SContains(n, ".yml") THEN n ELSE SCat(n, ".yml")
Files(c, asked, asked2) ==
  CASE c.type = "S" -> <<FileName(c, asked, "spectra_config", "")>>
    [] c.type = "F" -> <<FileName(c, asked, "spectral_fit_config", "_spectral")>>
    [] c.type = "G" -> <<FileName(c, asked, "global_fit_config", "_global"),
                         FileName(c, asked2, "spectral_fit_config", "_spectral")>>
\* name of a configuration loaded from a file
LoadedName(t, asked, file) ==
  IF asked = "none" THEN DefaultName(t)
  ELSE IF asked = "" THEN SSub(file, 0, SLen(file) - 4) ELSE asked

-----------------------------------------------------------------------------
(* Names of spectrum axes: "<dimension>_<type>".                              *)
Parts(n) == SSplit(n, "_")
RECURSIVE JoinU(_)
JoinU(s) == IF Len(s) = 1 THEN s[1] ELSE SCat(SCat(s[1], "_"), JoinU(Tail(s)))
DimOf(n) == LET ps == Parts(n) IN IF Len(ps) < 2 THEN "" ELSE JoinU(SubSeq(ps, 1, Len(ps) - 1))
TypeOf(n) == LET ps == Parts(n) IN ps[Len(ps)]

-----------------------------------------------------------------------------
(* Equality of what can be observed.                                          *)
Num(a, b) == IF a = "none" \/ b = "none" THEN a = b ELSE REq(a, b)
ModeOf(p) == IF p.log THEN "log" ELSE IF p.dev THEN "dev" ELSE "linear"
ParDiff(p, q) ==
  (IF p.nm = q.nm THEN {} ELSE {"name"})
  \cup (IF p.kind = q.kind THEN {} ELSE {"kind"})
  \cup (IF p.dim = q.dim THEN {} ELSE {"dimension"})
  \cup (IF Num(p.lo, q.lo) /\ Num(p.hi, q.hi) THEN {} ELSE {"bounds"})
  \cup (IF p.bins = q.bins THEN {} ELSE {"bins"})
  \cup (IF Num(p.prior, q.prior) THEN {} ELSE {"prior"})
  \cup (IF Num(p.sigma, q.sigma) THEN {} ELSE {"sigma"})
  \cup (IF ModeOf(p) = ModeOf(q) /\ (p.log => Num(p.base, q.base)) THEN {} ELSE {"scale_mode"})
  \cup (IF Num(p.cur, q.cur) THEN {} ELSE {"current_value"})
  \cup (IF Num(p.best, q.best) THEN {} ELSE {"best_fit"})
  \cup (IF Num(p.pen, q.pen) THEN {} ELSE {"penalty_term"})
=============================================================================
