----------------------------- MODULE MC_Scripts -----------------------------
(* Small sessions at the command line, each command working on the files the *)
(* ones before it left.                                                      *)
EXTENDS Scripts, TLC, Json
CONSTANTS MaxRuns, Wide
VARIABLES files, last, hist
View == <<files, last>>
Axis == [n |-> "energy_mc", lo |-> "0.5", hi |-> "4.5", b |-> 4]
D1 == <<"1", "0", "6", "2">>
D2 == <<"0", "3", "0.5", "4">>
Spec0(d) == [NewSpectrum(<<Axis>>, "8") EXCEPT !.data = d]
NewOp(d) == [op |-> "new", k |-> 0, dec |-> "8", raw |-> 0, cells |-> d, axes |-> <<Axis>>]
Starts == {<<[path |-> "s.hdf5", new |-> NewOp(D1)], [path |-> "d/u.v2.hdf5", new |-> NewOp(D2)]>>}
None == [ins |-> <<>>, out |-> "none", bins |-> <<>>, pars |-> <<>>, low |-> <<>>, up |-> <<>>,
         par |-> "none", val |-> "none", res |-> "none", ly |-> "none", gaus |-> FALSE,
         method |-> "weight", dest |-> "none", dirs |-> <<"d", "e/f", "d.x", "out">>,
         events |-> <<>>, axes |-> <<>>, name |-> "none",
         o |-> [fv |-> "none", ext |-> FALSE, outer |-> "none", bipo |-> FALSE]]
Paths == {files[i].path : i \in 1..Len(files)} \cup {"gone.hdf5"}
Cmd(s, a) == [script |-> s, a |-> a]
Commands ==
  LET one(p) == [None EXCEPT !.ins = <<p>>] IN
  {Cmd("combine_hdf5", [None EXCEPT !.ins = w]) :
     w \in {<<p, q>> : p \in Paths, q \in Paths} \cup {<<p>> : p \in Paths}}
  \cup {Cmd("rebin", [one(p) EXCEPT !.bins = <<b>>, !.out = o]) :
          p \in Paths, b \in {2, 3}, o \in {"none", "out/new.v1.hdf5"}}
  \cup {Cmd("dump_shrink", [one(p) EXCEPT !.pars = <<"energy_mc">>, !.low = w[1], !.up = w[2]]) :
          p \in Paths, w \in {<<<<"1.5">>, <<>>>>, <<<<>>, <<"3.5">>>>, <<<<"1.5">>, <<"2.5">>>>,
                              <<<<>>, <<>>>>, <<<<"0.5", "1">>, <<>>>>}}
  \cup {Cmd("dump_shifted", [one(p) EXCEPT !.par = n, !.val = v]) :
          p \in Paths, n \in {"energy_mc", "none"}, v \in {"0", "1", "-2"}}
  \cup {Cmd("dump_scaled", [one(p) EXCEPT !.par = "energy_mc", !.val = v, !.dest = e]) :
          p \in Paths, v \in {"1.25", "0"}, e \in {"none", "out", "nodir"}}
  \cup {Cmd("dump_smeared", [one(p) EXCEPT !.res = r, !.method = m]) :
          p \in Paths, r \in {"none", "0.3"}, m \in {"weight", "typo"}}
  \cup {Cmd("dump_smeared_energy", [one(p) EXCEPT !.res = r, !.ly = y, !.dest = e, !.gaus = g]) :
          p \in Paths, r \in {"none", "0.3", "1.5"}, y \in {"none", "10"},
          e \in {"none", "out"}, g \in Wide}
\* what a command does is settled if its verdict is not "open"
Do(c) ==
  /\ Verdict(files, c) # "open"
  /\ files' = After(files, c)
  /\ last' = [c |-> c, v |-> Verdict(files, c), was |-> files]
  /\ hist' = Append(hist, [op |-> "run", script |-> c.script, a |-> c.a])
Init == \E w \in Starts :
  /\ files = [i \in 1..Len(w) |-> [path |-> w[i].path, sp |-> Spec0(w[i].new.cells)]]
  /\ last = <<>>
  /\ hist = <<[op |-> "world", files |-> w]>>
Next == Len(hist) <= MaxRuns /\ \E c \in Commands : Do(c)
NextE == Next /\ PrintT(ToJson(hist'))
-----------------------------------------------------------------------------
Ran == last # <<>>
\* one command writes at most one file, and only if it can do what was asked
OneFile == Ran =>
  LET new == {files[i].path : i \in 1..Len(files)} \ {last.was[i].path : i \in 1..Len(last.was)} IN
  /\ new \subseteq {OutPath(last.c)}
  /\ last.v = "no" => files = last.was
InputsKept == Ran =>
  \A i \in 1..Len(last.was) :
    \/ last.was[i].path = OutPath(last.c)
    \/ Has(files, last.was[i].path) /\ At(files, last.was[i].path) = last.was[i].sp
\* default names never meet the input
NamesApart == Ran /\ last.v = "yes" /\ last.c.script \notin {"combine_hdf5"} /\ last.c.a.out = "none" =>
  OutPath(last.c) # last.c.a.ins[1]
Extension == Ran /\ last.v = "yes" => SEndsWith(OutPath(last.c), ".hdf5")
Content == Ran /\ last.v = "yes" =>
  LET o == At(files, OutPath(last.c))
      t(i) == Total(At(last.was, last.c.a.ins[i])) IN
  CASE last.c.script = "combine_hdf5" -> RClose(Total(o), RAdd(t(1), t(2)), "1e-9", "0")
    [] last.c.script \in {"rebin", "dump_smeared", "dump_smeared_energy"} -> RClose(Total(o), t(1), "1e-9", "0")
    [] last.c.script \in {"dump_shrink", "dump_shifted"} -> RLe(Total(o), RAdd(t(1), "1e-9"))
    [] OTHER -> TRUE
=============================================================================
