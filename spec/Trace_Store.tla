----------------------------- MODULE Trace_Store -----------------------------
(* Judges recorded dumps and loads.                                           *)
EXTENDS Store, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VT_TRACE)
VARIABLES l, fs,         \* fs: file name -> contents; <<>> before a sequence
          last           \* file name -> what was dumped there last

FileOf(f) == IF f \in DOMAIN fs THEN fs[f] ELSE NoFile
Put2(f, c) == [x \in DOMAIN fs \cup {f} |-> IF x = f THEN c ELSE fs[x]]
GrpOf(op) == CASE op \in {"dump", "load"} -> "spectrum"
               [] op \in {"dump_fit", "load_fit"} -> "fit"
               [] OTHER -> "limit"
P1(grp) == IF grp = "spectrum" THEN "C16" ELSE "C17"
Prop(grp) == SCat(P1(grp), ".")
\* what is not there any more was lost by its own dump or by the last one
Lost(ev) == LET g == GrpOf(ev.op) f == ev.file IN
  IF f \in DOMAIN last /\ P1(last[f]) # P1(g) THEN "C16+C17." ELSE Prop(g)
IsDump(ev) == ev.op \in {"dump", "dump_fit", "dump_limit"}
IsLoad(ev) == ev.op \in {"load", "load_fit", "load_limit"}
\* the others are as they were: a dump or a load changes nothing else
Untouched(ev) == ev.kept
Bad(ev) ==
  CASE ev.op = "crash" -> {"*.crash"}
    [] IsDump(ev) ->
       LET grp == GrpOf(ev.op)
           file == FileOf(ev.file) IN
       (IF ev.kept THEN {} ELSE {SCat(Prop(grp), "dump_changes_memory")}) \cup
       (IF ~file.known THEN {}
        ELSE IF DumpRejected(file, grp, ev.append, ev.overwrite)
        THEN IF ev.ok THEN {SCat(Prop(grp), "dump_replaces_unasked")} ELSE {}
        ELSE IF ~ev.ok /\ ~ev.excused THEN {SCat(Prop(grp), "dump_failed")} ELSE {})
    [] IsLoad(ev) ->
       LET grp == GrpOf(ev.op)
           file == FileOf(ev.file) IN
       (IF ev.kept THEN {} ELSE {SCat(Prop(grp), "load_changes_memory")}) \cup
       (IF ~file.known THEN {}
        ELSE IF ~Holds(file, grp)
        THEN IF ev.ok THEN {SCat(Prop(grp), "load_of_nothing")} ELSE {}
        ELSE IF ~ev.ok THEN {SCat(Lost(ev), "load_failed")}
        ELSE Label(Lost(ev), Differ(grp, file[grp][1], ev.v[1])))
    [] ev.op = "load_old" ->
       IF ~ev.ok THEN {"C16.old_style_failed"}
       ELSE Label("C16.old_style_", SpDiff(ev.v[1], ev.v2[1]))
    [] ev.op = "save" -> IF ev.ok THEN {} ELSE {"C17.object_not_saved"}
    [] ev.op = "restore" ->
       LET file == FileOf(ev.file) IN
       IF ~file.known \/ file.array = <<>> THEN {}
       ELSE IF ~ev.ok THEN {"C17.object_not_loaded"}
       ELSE IF LoadedInto(ev.v, file.array[1], ev.v2) THEN {} ELSE {"C17.object_changed"}
    [] ev.op = "text" ->
       IF ~ev.ok THEN {"C16.dictionary_text_failed"}
       ELSE IF Len(ev.v) = Len(ev.v2) /\ \A i \in 1..Len(ev.v) :
                 ev.v[i].n = ev.v2[i].n /\ AttrEq(ev.v[i], ev.v2[i])
       THEN {} ELSE {"C16.dictionary_text"}
    [] ev.op = "other" -> {}

FsAfter(ev) ==
  CASE ev.op = "crash" -> <<>>
    [] ev.op = "new" -> <<>>
    [] IsDump(ev) ->
       LET grp == GrpOf(ev.op) file == FileOf(ev.file) IN
       IF ev.ok THEN Put2(ev.file, [Written(file, grp, ev.v[1], ev.append) EXCEPT
                                      !.known = IF ev.append THEN file.known ELSE TRUE])
       ELSE IF DumpRejected(file, grp, ev.append, ev.overwrite) THEN fs
       ELSE Put2(ev.file, [file EXCEPT !.known = FALSE])
    [] ev.op = "save" -> Put2(ev.file, [NoFile EXCEPT !.here = TRUE, !.array = <<Saved(ev.v)>>,
                                                      !.known = ev.ok])
    [] OTHER -> fs
TInit == l = 1 /\ fs = <<>> /\ last = <<>>
TNext == /\ l <= Len(Trace)
         /\ \A c \in (IF Trace[l].op = "new" THEN {} ELSE Bad(Trace[l])) : PrintT(<<"BAD", l, c>>)
         /\ l' = l + 1
         /\ fs' = FsAfter(Trace[l])
         /\ LET ev == Trace[l] IN
            last' = IF ev.op \in {"crash", "new"} THEN <<>>
                    ELSE IF ev.op = "save" \/ (IsDump(ev) /\ ~ev.append)
                    THEN [x \in DOMAIN last \ {ev.file} |-> last[x]]
                    ELSE IF IsDump(ev)
                    THEN [x \in DOMAIN last \cup {ev.file} |-> IF x = ev.file THEN GrpOf(ev.op) ELSE last[x]]
                    ELSE last
=============================================================================
