------------------------------- MODULE Session -------------------------------
(* The log of a session (C28): what a process that starts logging writes to   *)
(* the log directory and shows on the terminal.                               *)
EXTENDS Integers, Sequences, RealK

Levels == <<"debug", "info", "warning", "error", "critical">>
Rank(l) == CHOOSE i \in 1..Len(Levels) : Levels[i] = l
LevelWord(l) == CASE l = "debug" -> "DEBUG" [] l = "info" -> "INFO"
                  [] l = "warning" -> "WARNING" [] l = "error" -> "ERROR"
                  [] OTHER -> "CRITICAL"

\* a process: its settings, and what starting to log has fixed.  The level of
\* the terminal and the file are those of the first start; warnings follow the
\* last start; warnings become errors once a cautious start has been made.
NewProcess == [level |-> "info", mode |-> "normal", dir |-> "logs",
               begun |-> FALSE, shown |-> "", file |-> "", at |-> "",
               capture |-> "no", strict |-> "no"]
Profile(p, level, mode, dir) ==
  [p EXCEPT !.level = level, !.mode = mode, !.dir = dir]
LogName(script, short, named, host) ==
  SCat(SCat("echidna", IF named THEN SCat(".", script) ELSE ""),
       SCat(IF short THEN "" ELSE SCat(".", host), ".log"))
CanStart(p, dirs) == p.begun \/ p.dir \in dirs
Strict(p) == IF p.mode = "cautious" THEN "yes" ELSE p.strict
Start(p, script, capture, short, named, host) ==
  LET q == [p EXCEPT !.capture = IF capture THEN "yes" ELSE "no", !.strict = Strict(p)] IN
  IF p.begun THEN q
  ELSE [q EXCEPT !.begun = TRUE, !.shown = p.level, !.at = p.dir,
                 !.file = LogName(script, short, named, host)]
\* a start that fails does not begin a log (what it did to warnings is open)
Failed(p) == [p EXCEPT !.capture = "?", !.strict = IF Strict(p) = "no" THEN "no" ELSE "?"]

Shown(p, level) == p.begun /\ Rank(level) >= Rank(p.shown)
\* "extra" and the loggers below it add bare text, the others their name
IsExtra(logger) == logger = "extra" \/ SStartsWith(logger, "extra.")
Raises(p, cat) == IF cat # "UserWarning" THEN "no" ELSE p.strict
Captured(p) == IF ~p.begun THEN "?" ELSE p.capture
=============================================================================
