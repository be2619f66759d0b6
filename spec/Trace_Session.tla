---------------------------- MODULE Trace_Session ----------------------------
(* Judges recorded sessions.                                                  *)
EXTENDS Session, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VT_TRACE)
VARIABLES l, p, open     \* open: a process whose start could not be followed

Dirs == {"logs", "a/b"}
Count(lines, text) ==
  LET s == SelectSeq(lines, LAMBDA x : SContains(x, text)) IN Len(s)
Start1(ev) == SCat(SCat("Starting script: ", ev.script), ".py")
TheFile(ev, q) == {i \in 1..Len(ev.files) : ev.files[i].n = q.file /\ ev.files[i].dir = q.at}
OnlyThe(ev, q) == \A i \in 1..Len(ev.files) : i \in TheFile(ev, q)
LinesOf(ev, q) == IF TheFile(ev, q) = {} THEN <<>> ELSE ev.files[CHOOSE i \in TheFile(ev, q) : TRUE].lines
Quiet(ev) == Len(ev.files) = 0 /\ ev.gone = 0

BadStart(ev) ==
  LET q == Start(p, ev.script, ev.capture, ev.short, ev.named, ev.host) IN
  (IF ev.gone = 0 THEN {} ELSE {"C28.logs_lost"}) \cup
  IF ~CanStart(p, Dirs) THEN
     IF ev.ok THEN {"C28.started_without_directory"}
     ELSE IF Quiet(ev) THEN {} ELSE {"C28.start_without_directory"}
  ELSE IF ~ev.ok THEN {"C28.start_failed"}
  ELSE (IF ev.name = ev.script THEN {} ELSE {"C28.logger_name"})
       \cup (IF OnlyThe(ev, q) THEN {} ELSE {"C28.log_file"})
       \cup (IF TheFile(ev, q) # {} /\ Count(LinesOf(ev, q), Start1(ev)) = 1 THEN {}
             ELSE {"C28.start_not_logged"})
       \cup (IF p.begun \/ \E i \in DOMAIN LinesOf(ev, q) :
                             SEndsWith(LinesOf(ev, q)[i], SCat(q.at, SCat("/", q.file)))
             THEN {} ELSE {"C28.log_file_named"})
       \cup (IF Count(ev.con, Start1(ev)) = (IF Shown(q, "info") THEN 1 ELSE 0) THEN {}
             ELSE {"C28.start_on_terminal"})
       \cup (IF \A i \in TheFile(ev, q) : p.begun = ~ev.files[i].fresh THEN {} ELSE {"C28.log_continued"})
BadLog(ev) ==
  IF ~ev.ok THEN {"C28.logging_fails"}
  ELSE IF ~p.begun THEN IF Quiet(ev) THEN {} ELSE {"C28.log_before_start"}
  ELSE LET x == LinesOf(ev, p) IN
    (IF ev.gone = 0 /\ OnlyThe(ev, p) THEN {} ELSE {"C28.log_file"})
    \cup (IF Len(x) = 1 /\ SEndsWith(x[1], SCat(": ", ev.text)) /\ SContains(x[1], SCat(" ", LevelWord(ev.level)))
          THEN {} ELSE {"C28.message_in_file"})
    \cup (IF Shown(p, ev.level)
          THEN IF /\ Len(ev.con) = 1
                  /\ IF IsExtra(ev.logger) THEN ev.con[1] = ev.text
                     ELSE /\ SStartsWith(ev.con[1], SCat(ev.logger, " "))
                          /\ SEndsWith(ev.con[1], SCat(": ", ev.text))
               THEN {} ELSE {"C28.message_on_terminal"}
          ELSE IF ev.con = <<>> THEN {} ELSE {"C28.level_of_terminal"})
BadWarn(ev) ==
  LET r == Raises(p, ev.cat) c == Captured(p) IN
  IF r = "?" THEN {}
  ELSE IF r = "yes" THEN IF ev.ok THEN {"C28.caution_ignored"}
                         ELSE IF ev.err = ev.cat THEN {} ELSE {"C28.caution_error"}
  ELSE IF ~ev.ok THEN {"C28.caution_unasked"}
  ELSE IF c = "?" THEN {}
  ELSE IF c = "no" THEN IF Quiet(ev) THEN {} ELSE {"C28.warning_captured"}
  ELSE (IF OnlyThe(ev, p) /\ ev.gone = 0 /\ Count(LinesOf(ev, p), ev.text) = 1 THEN {} ELSE {"C28.warning_in_file"})
       \cup (IF Count(ev.con, ev.text) = (IF Shown(p, "warning") THEN 1 ELSE 0) THEN {} ELSE {"C28.warning_on_terminal"})
Bad(ev) ==
  CASE ev.op = "crash" -> {"*.crash"}
    [] ev.op = "begin" -> IF Quiet(ev) THEN {} ELSE {"C28.logs_lost"}
    [] open -> {}
    [] ev.op = "profile" -> IF Quiet(ev) THEN {} ELSE {"C28.log_file"}
    [] ev.op = "start" -> BadStart(ev)
    [] ev.op = "log" -> BadLog(ev)
    [] ev.op = "warn" -> BadWarn(ev)
    [] OTHER -> {"*.crash"}
Step(ev) ==
  CASE ev.op = "begin" -> NewProcess
    [] ev.op = "profile" -> Profile(p, ev.level, ev.mode, ev.dir)
    [] ev.op = "start" -> IF ev.ok /\ CanStart(p, Dirs)
                          THEN Start(p, ev.script, ev.capture, ev.short, ev.named, ev.host)
                          ELSE Failed(p)
    [] OTHER -> p

TInit == l = 1 /\ p = NewProcess /\ open = FALSE
TNext == /\ l <= Len(Trace)
         /\ \A c \in Bad(Trace[l]) : PrintT(<<"BAD", l, c>>)
         /\ l' = l + 1 /\ p' = Step(Trace[l])
         /\ open' = IF Trace[l].op = "begin" THEN FALSE
                    ELSE open \/ (Trace[l].op = "crash")
                         \/ (Trace[l].op = "start" /\ Trace[l].ok # CanStart(p, Dirs))
=============================================================================
