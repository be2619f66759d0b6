------------------------------ MODULE MC_Store -------------------------------
(* Design check of storage: two files, one object of each kind in memory     *)
(* (which may be replaced or changed), and what was last loaded.  Paths hold *)
(* values, not references.  The invariants compare the files with the        *)
(* history of dumps.  Every behaviour is replayed on the real code.          *)
EXTENDS Store, TLC, Json
CONSTANTS MaxOps, Paths, Grps, Variants
VARIABLES fs, mem, loaded, log, hist
View == <<fs, mem, loaded, Len(hist)>>

Par(nm, kind, dim, lo, hi, b) ==
  [nm |-> nm, kind |-> kind, dim |-> dim, lo |-> lo, hi |-> hi, bins |-> b,
   prior |-> "0", sigma |-> "none", log |-> FALSE, base |-> "none", dev |-> FALSE,
   cur |-> "none", best |-> "none", pen |-> "none", np |-> FALSE]
Ent(sort, p) == [key |-> p.nm, sort |-> sort, par |-> p]
AxesOf(v) == <<Ent("", Par("energy_mc", "axis", "none", "0", "10", 2))>>
             \o (IF v = 1 THEN <<>> ELSE <<Ent("", Par("a_b_reco", "axis", "none", "1", "2", 3))>>)
RateP(nm, b) == [Par(nm, "rate", "none", "0", "4", b) EXCEPT !.prior = "2", !.sigma = "1"]
\* the spectral parameter comes before the global one in the second
GlobOf(v) ==
  LET g == Ent("global", [Par("energy_shift", "shift", "energy", "-1", "1", 3) EXCEPT !.best = "0.5"])
      r == Ent("spectra", RateP("rate", 2)) IN
  [type |-> "G", name |-> "gfc", sp |-> "", ents |-> IF v = 1 THEN <<g, r>> ELSE <<r, g>>]
FitCfg == [type |-> "F", name |-> "sfc", sp |-> "Sp", ents |-> <<Ent("", RateP("Te130_rate", 3))>>]
LimCfg == [FitCfg EXCEPT !.ents = <<Ent("", RateP("rate", 2))>>]
Cells == <<"1", "0", "3.5", "3", "12", "1e-9", "5">>
JSp(v) == [op |-> "mk_spectrum", axes |-> AxesOf(v), cfgname |-> "config",
           name |-> IF v = 1 THEN "Te130_mc" ELSE "U238_reco",
           bg |-> IF v = 1 THEN "none" ELSE "other", dec |-> "100", raw |-> 7, bipo |-> v - 1,
           style |-> "default", cells |-> Cells,
           rois |-> IF v = 1 THEN <<>> ELSE << <<"energy_mc", "1", "2", "0.5">> >>,
           fit |-> IF v = 1 THEN <<FitCfg>> ELSE <<>>]
JGrid(v) == [op |-> "mk_fit", fit |-> GlobOf(v), axes |-> AxesOf(v), pb |-> v = 2,
             cfgname |-> "config", name |-> "res", resets |-> v, cells |-> Cells,
             pens |-> <<"1", "0", "2">>]
JLim(v) == [op |-> "mk_limit", fit |-> GlobOf(v), axes |-> AxesOf(v), lim |-> LimCfg,
            cfgname |-> "config", name |-> "lim", pb |-> FALSE, cells |-> Cells,
            pens |-> <<"1", "0", "2">>, bests |-> <<"3", "0.5">>,
            grids |-> IF v = 1 THEN <<>> ELSE << <<>>, <<JGrid(v)>> >>]
J(g, v) == CASE g = "spectrum" -> JSp(v) [] g = "fit" -> JGrid(v) [] OTHER -> JLim(v)
Sfx(g) == CASE g = "spectrum" -> "" [] g = "fit" -> "_fit" [] OTHER -> "_limit"
Has(m, g) == m[g] # <<>>

Init == /\ fs = [f \in Paths |-> NoFile]
        /\ mem = [g \in Grps |-> <<>>] /\ loaded = [g \in Grps |-> <<>>]
        /\ log = <<>> /\ hist = <<[op |-> "new"]>>
Note(o, e) == hist' = Append(hist, o) /\ log' = Append(log, e)
Quiet == [op |-> "other", file |-> "", grp |-> "", append |-> FALSE, acc |-> FALSE, val |-> <<>>]

Make(g, v) ==
  /\ (IF mem[g] = <<>> THEN TRUE ELSE mem[g][1] # v)
  /\ mem' = [mem EXCEPT ![g] = <<v, 0>>]
  /\ UNCHANGED <<fs, loaded>> /\ Note(J(g, v), Quiet)
Write(g, f, a, o) ==
  /\ Has(mem, g)
  /\ (o => g = "spectrum")
  /\ fs' = [fs EXCEPT ![f] = Dump(fs[f], g, mem[g], a, o)]
  /\ UNCHANGED <<mem, loaded>>
  /\ Note([op |-> "dump" \o Sfx(g), file |-> f, append |-> a, overwrite |-> o],
          [op |-> "dump", file |-> f, grp |-> g, append |-> a,
           acc |-> ~DumpRejected(fs[f], g, a, o), val |-> mem[g]])
Read(g, f) ==
  /\ loaded' = [loaded EXCEPT ![g] = IF Holds(fs[f], g) THEN fs[f][g][1] ELSE @]
  /\ UNCHANGED <<fs, mem>>
  /\ Note([op |-> "load" \o Sfx(g), file |-> f],
          [Quiet EXCEPT !.op = "load", !.file = f, !.grp = g, !.acc = Holds(fs[f], g),
                        !.val = IF Holds(fs[f], g) THEN fs[f][g][1] ELSE <<>>])
\* only spectra are changed in place
Change ==
  /\ "spectrum" \in Grps
  /\ \/ /\ Has(mem, "spectrum") /\ mem["spectrum"][2] = 0
        /\ mem' = [mem EXCEPT !["spectrum"][2] = 1] /\ UNCHANGED loaded
        /\ hist' = Append(hist, [op |-> "mutate", how |-> "cell", x |-> "1", loaded |-> FALSE])
     \/ /\ Has(loaded, "spectrum") /\ loaded["spectrum"][2] < 2
        /\ loaded' = [loaded EXCEPT !["spectrum"][2] = 2] /\ UNCHANGED mem
        /\ hist' = Append(hist, [op |-> "mutate", how |-> "scale", x |-> "1", loaded |-> TRUE])
  /\ log' = Append(log, Quiet) /\ UNCHANGED fs
Next == /\ Len(hist) <= MaxOps
        /\ \/ \E g \in Grps, v \in Variants : Make(g, v)
           \/ \E g \in Grps, f \in Paths, a, o \in BOOLEAN : Write(g, f, a, o)
           \/ \E g \in Grps, f \in Paths : Read(g, f)
           \/ Change
NextE == Next /\ ((hist'[Len(hist')].op \in {"load", "load_fit", "load_limit"} /\ Len(hist') > MaxOps)
                    => PrintT(ToJson(hist')))
-----------------------------------------------------------------------------
\* dumps that count: accepted, into f, and no accepted fresh dump into f later
Alive(i, f) == /\ log[i].op = "dump" /\ log[i].acc /\ log[i].file = f
               /\ \A j \in i+1..Len(log) :
                    ~(log[j].op = "dump" /\ log[j].acc /\ log[j].file = f /\ ~log[j].append)
Writes(f, g, n) == {i \in 1..n : log[i].op = "dump" /\ log[i].acc /\ log[i].file = f /\ log[i].grp = g}
Latest(s) == CHOOSE i \in s : \A j \in s : j <= i
\* a file holds what was last put there
Recall == \A f \in Paths : \A g \in Grps :
  LET s == {i \in Writes(f, g, Len(log)) : Alive(i, f)} IN
  fs[f][g] = IF s = {} THEN <<>> ELSE <<log[Latest(s)].val>>
\* a dump is refused only where something would be lost unasked
Refusals == \A i \in 1..Len(log) :
  (log[i].op = "dump" /\ ~log[i].acc) => (log[i].append /\ Writes(log[i].file, log[i].grp, i - 1) # {})
\* nothing but a dump changes a file: what was read is what some dump wrote
NoInvention == \A i \in 1..Len(log) :
  (log[i].op = "load" /\ log[i].acc) =>
     \E j \in Writes(log[i].file, log[i].grp, i - 1) : log[j].val = log[i].val
\* one object does not disturb the others in the file
Separate == \A f \in Paths : \A i \in 1..Len(log) :
  (i = Len(log) /\ log[i].op = "dump" /\ log[i].file = f /\ log[i].append) =>
    \A g \in Grps \ {log[i].grp} : (\E k \in Writes(f, g, i - 1) : Alive(k, f)) => fs[f][g] # <<>>
=============================================================================
