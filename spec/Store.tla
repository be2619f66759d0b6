------------------------------- MODULE Store ---------------------------------
(* echidna/output/store.py: what is written to a file is what is read back.  *)
(* Properties C16, C17.                                                       *)
(*                                                                            *)
(* A file is [known, here, spectrum, fit, limit, array]: the three groups and *)
(* the attributes of a saved object, each <<>> or <<value>>; known is FALSE   *)
(* after a write that failed half-way in an unspecified manner.               *)
EXTENDS Config

NoFile == [known |-> TRUE, here |-> FALSE, spectrum |-> <<>>, fit |-> <<>>,
           limit |-> <<>>, array |-> <<>>]
Groups == {"spectrum", "fit", "limit"}
\* a dump opens an existing file only to append
Opened(file, append) == [(IF append THEN file ELSE NoFile) EXCEPT !.here = TRUE]
DumpRejected(file, grp, append, overwrite) ==
  append /\ file[grp] # <<>> /\ ~overwrite
Written(file, grp, v, append) == [Opened(file, append) EXCEPT ![grp] = <<v>>]
Dump(file, grp, v, append, overwrite) ==
  IF DumpRejected(file, grp, append, overwrite) THEN file
  ELSE Written(file, grp, v, append)
Holds(file, grp) == file.here /\ file[grp] # <<>>

-----------------------------------------------------------------------------
(* Equality of what was written with what was read.                           *)
\* order of the parameters, and each of them
CfgDiff(c, o) ==
  (IF c.type = o.type /\ c.name = o.name /\ c.sp = o.sp THEN {} ELSE {"config_name"})
  \cup (IF Keys(c) # Keys(o)
        THEN IF KeySet(c) = KeySet(o) /\ Len(c.ents) = Len(o.ents) THEN {"order"}
             ELSE {"parameters"}
        ELSE UNION {(IF c.ents[i].sort = o.ents[i].sort THEN {} ELSE {"sort"})
                    \cup (IF c.type = "F" THEN ParDiff(c.ents[i].par, o.ents[i].par) \ {"name"}
                          ELSE ParDiff(c.ents[i].par, o.ents[i].par))
                    : i \in 1..Len(c.ents)})
Label(pre, s) == {SCat(pre, x) : x \in s}
OptDiff(a, b) == IF Len(a) # Len(b) THEN {"presence"}
                 ELSE IF Len(a) = 0 THEN {} ELSE CfgDiff(a[1], b[1])
SameNums(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : (a[i] = b[i]) \/ (RIsFinite(a[i]) /\ RIsFinite(b[i]) /\ REq(a[i], b[i]))
SameArr(a, b) == a.shape = b.shape /\ SameNums(a.data, b.data)
SpDiff(s, o) ==
  (IF s.name = o.name THEN {} ELSE {"name"})
  \cup (IF s.bg = o.bg THEN {} ELSE {"background_name"})
  \cup (IF SameNums(<<s.dec>>, <<o.dec>>) THEN {} ELSE {"decays"})
  \cup (IF s.raw = o.raw THEN {} ELSE {"raw_events"})
  \cup (IF s.bipo = o.bipo THEN {} ELSE {"bipo"})
  \cup (IF s.style = o.style THEN {} ELSE {"style"})
  \cup (IF SameArr(s.arr, o.arr) THEN {} ELSE {"contents"})
  \cup (IF Len(s.rois) = Len(o.rois) /\ \A i \in 1..Len(s.rois) :
              s.rois[i].n = o.rois[i].n /\
              SameNums(<<s.rois[i].lo, s.rois[i].hi, s.rois[i].eff>>,
                       <<o.rois[i].lo, o.rois[i].hi, o.rois[i].eff>>)
        THEN {} ELSE {"regions"})
  \cup Label("axes_", CfgDiff(s.cfg, o.cfg))
  \cup Label("fit_config_", OptDiff(s.fit, o.fit))
\* a grid of fit results
GridDiff(g, o) ==
  (IF g.name = o.name THEN {} ELSE {"name"})
  \cup (IF SameArr(g.stats, o.stats) THEN {} ELSE {"statistics"})
  \cup (IF SameArr(g.pens, o.pens) THEN {} ELSE {"penalty_terms"})
  \cup (IF g.resets = o.resets THEN {} ELSE {"resets"})
  \cup (IF g.pb = o.pb THEN {} ELSE {"per_bin"})
  \cup Label("fit_config_", CfgDiff(g.fit, o.fit))
  \cup Label("axes_", CfgDiff(g.cfg, o.cfg))
LimDiff(r, o) ==
  (IF r.name = o.name THEN {} ELSE {"name"})
  \cup (IF SameArr(r.stats, o.stats) THEN {} ELSE {"statistics"})
  \cup (IF SameArr(r.pens, o.pens) THEN {} ELSE {"penalty_terms"})
  \cup (IF SameArr(r.bests, o.bests) THEN {} ELSE {"best_fits"})
  \cup Label("fit_config_", CfgDiff(r.fit, o.fit))
  \cup Label("axes_", CfgDiff(r.cfg, o.cfg))
  \cup Label("limit_config_", CfgDiff(r.lim, o.lim))
  \cup (IF Len(r.fits) = Len(o.fits) /\ \A i \in 1..Len(r.fits) : Len(r.fits[i]) = Len(o.fits[i])
        THEN UNION {IF Len(r.fits[i]) = 0 THEN {} ELSE Label("fit_", GridDiff(r.fits[i][1], o.fits[i][1]))
                    : i \in 1..Len(r.fits)}
        ELSE {"fits"})
Differ(grp, a, b) ==
  CASE grp = "spectrum" -> SpDiff(a, b)
    [] grp = "fit" -> GridDiff(a, b)
    [] OTHER -> LimDiff(a, b)

(* Objects saved attribute by attribute: attributes that are None are not     *)
(* stored, and what the file does not have is left alone.                     *)
AttrNames(o) == {o[i].n : i \in 1..Len(o)}
AttrOf(o, n) == o[CHOOSE i \in 1..Len(o) : o[i].n = n]
Saved(o) == SelectSeq(o, LAMBDA a : a.kind # "none")
AttrEq(a, b) ==
  IF a.kind \in {"none", "text"} \/ b.kind \in {"none", "text"}
  THEN a.kind = b.kind /\ a.text = b.text
  ELSE a.kind = b.kind /\ SameArr(a.arr, b.arr)
\* target object before, saved attributes, object afterwards
LoadedInto(before, saved, after) ==
  /\ Len(before) = Len(after)
  /\ \A i \in 1..Len(before) :
       /\ after[i].n = before[i].n
       /\ AttrEq(after[i], IF before[i].n \in AttrNames(saved) THEN AttrOf(saved, before[i].n)
                           ELSE before[i])
=============================================================================
