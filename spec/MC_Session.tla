------------------------------ MODULE MC_Session ------------------------------
(* Every short session, with what it must leave in the log directory and on    *)
(* the terminal; each is replayed on the real code.                            *)
EXTENDS Session, TLC, Json
CONSTANTS MaxOps, Wide
VARIABLES p, files, con, said, hist
View == <<p, files, con, said>>
Host == "h.1"

Opts == IF Wide THEN {[capture |-> c, short |-> s, named |-> n] : c, s, n \in BOOLEAN}
        ELSE {[capture |-> TRUE, short |-> TRUE, named |-> FALSE],
              [capture |-> FALSE, short |-> FALSE, named |-> TRUE]}
Profiles == {[level |-> "debug", mode |-> "normal", dir |-> "a/b"],
             [level |-> "warning", mode |-> "cautious", dir |-> "logs"],
             [level |-> "info", mode |-> "normal", dir |-> "gone"]}
Names == {"Fit", "extra.sub"}
Put(name, x) == [n \in DOMAIN files \cup {name} |->
                   IF n = name THEN (IF n \in DOMAIN files THEN Append(files[n], x) ELSE <<x>>)
                   ELSE files[n]]
\* a message on its way to the file and the terminal
Say(level, what) ==
  IF ~p.begun THEN UNCHANGED <<files, con, said>>
  ELSE /\ files' = Put(p.file, <<level, what>>)
       /\ con' = IF Shown(p, level) THEN Append(con, <<level, what>>) ELSE con
       /\ said' = Append(said, <<level, what>>)
Note(o) == hist' = Append(hist, o)
Settle(s) == /\ p' = Profile(p, s.level, s.mode, s.dir) /\ UNCHANGED <<files, con, said>>
             /\ Note([op |-> "profile", level |-> s.level, mode |-> s.mode, dir |-> s.dir])
Begin(script, o) ==
  /\ Note([op |-> "start", script |-> script, capture |-> o.capture, short |-> o.short,
           named |-> o.named])
  /\ IF ~CanStart(p, {"logs", "a/b"})
     THEN p' = Failed(p) /\ UNCHANGED <<files, con, said>>
     ELSE LET q == Start(p, script, o.capture, o.short, o.named, Host)
              x == <<"info", SCat("Starting script: ", script)>> IN
          /\ p' = q
          /\ said' = Append(said, x)
          /\ con' = IF Shown(q, "info") THEN Append(con, x) ELSE con
          /\ files' = IF p.begun THEN Put(q.file, x)
                      ELSE [n \in DOMAIN files \cup {q.file} |-> IF n = q.file THEN <<x>> ELSE files[n]]
Log(logger, level) ==
  /\ p' = p /\ Say(level, "text")
  /\ Note([op |-> "log", logger |-> logger, level |-> level, text |-> "text"])
Warn(cat) ==
  /\ p' = p
  /\ Note([op |-> "warn", cat |-> cat, text |-> "caution"])
  /\ IF Raises(p, cat) = "no" /\ Captured(p) = "yes" THEN Say("warning", "caution")
     ELSE UNCHANGED <<files, con, said>>
Another ==
  /\ p' = NewProcess /\ con' = <<>> /\ said' = <<>> /\ UNCHANGED files
  /\ Note([op |-> "process"])
Init == p = NewProcess /\ files = [n \in {} |-> <<>>] /\ con = <<>> /\ said = <<>> /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \/ \E s \in Profiles : Settle(s)
           \/ \E o \in Opts, s \in {"run", "fit.v2"} : Begin(s, o)
           \/ \E n \in Names, v \in {"debug", "info", "error"} : Log(n, v)
           \/ \E c \in {"UserWarning", "FutureWarning"} : Warn(c)
           \/ Another
NextE == Next /\ (p'.begun /\ hist'[Len(hist')].op \in {"log", "warn", "start"} => PrintT(ToJson(hist')))
-----------------------------------------------------------------------------
\* the file of a process that logs holds all it said since it began, in order
Complete == p.begun => p.file \in DOMAIN files /\ files[p.file] = said
\* the terminal shows of that exactly what reaches its level
Filtered == p.begun => con = SelectSeq(said, LAMBDA x : Rank(x[1]) >= Rank(p.shown))
Silent == ~p.begun => con = <<>> /\ said = <<>>
=============================================================================
