------------------------------ MODULE PreMade -------------------------------
(* Names of pre-convolved spectra: get_pre_convolved of the global fit       *)
(* parameters (echidna/core/parameter.py) and Fit.load_pre_made.             *)
(* Property C21.                                                             *)
(*                                                                           *)
(* A name is [dirs, toks]: the components of the directory and the words of  *)
(* the file name (what "_" separates, without .hdf5).  A word is [t, ext]:   *)
(* its text and, if it is a number followed by one of the endings below,     *)
(* that ending.  A parameter at a value is [dim, kind, val].                 *)
EXTENDS RealK, Sequences, Integers

Systs == {"smear", "scale", "shift"}
Ending(p) ==
  CASE p.kind = "smear" -> IF RLt("10", p.val) THEN "ly" ELSE "rs"
    [] p.kind = "scale" -> "sc"
    [] OTHER -> "sh"
Endings(kind) == CASE kind = "smear" -> {"ly", "rs"} [] kind = "scale" -> {"sc"} [] OTHER -> {"sh"}
Word(p) == [t |-> SCat(p.val, Ending(p)), ext |-> Ending(p)]

Range(s) == {s[i] : i \in 1..Len(s)}
\* the dimension that component i, a systematic, was applied to
RECURSIVE DimAt(_, _)
DimAt(dirs, i) == IF i = 0 THEN "" ELSE IF dirs[i] \in Systs THEN DimAt(dirs, i - 1) ELSE dirs[i]
\* <<directory, place of the systematic's own component in it>>
DirsWith(dirs, p) ==
  LET own == {j \in 1..Len(dirs) : dirs[j] = p.kind /\ DimAt(dirs, j) = p.dim}
      e == Len(dirs) IN
  IF own # {} THEN <<dirs, CHOOSE j \in own : \A i \in own : j <= i>>
  ELSE IF DimAt(dirs, e) = p.dim THEN <<Append(dirs, p.kind), e + 1>>
  \* another dimension came in between: name this one again
  ELSE <<dirs \o <<p.dim, p.kind>>, e + 2>>
\* the n-th component and the n-th word of one kind belong together
Count(dirs, upto, kind) == LET k == SelectSeq(SubSeq(dirs, 1, upto), LAMBDA x : x = kind) IN Len(k)
Places(toks, kind) == SelectSeq([i \in 1..Len(toks) |-> i], LAMBDA i : toks[i].ext \in Endings(kind))
NameWith(name, p) ==
  LET d == DirsWith(name.dirs, p)
      n == Count(d[1], d[2], p.kind)
      at == Places(name.toks, p.kind) IN
  [dirs |-> d[1],
   toks |-> IF n <= Len(at) THEN [name.toks EXCEPT ![at[n]] = Word(p)]
            ELSE Append(name.toks, Word(p))]
Named(name, dim) == dim \in Range(name.dirs)
AddDim(name, dim) ==
  IF Named(name, dim) THEN name ELSE [name EXCEPT !.dirs = Append(@, dim)]
Apply(name, p) == NameWith(AddDim(name, p.dim), p)
RECURSIVE ApplyAll(_, _)
ApplyAll(name, ps) == IF Len(ps) = 0 THEN name ELSE ApplyAll(Apply(name, Head(ps)), Tail(ps))
\* where the file of a spectrum is looked for
Start(loc, base) == [dirs |-> IF Len(base) = 0 THEN loc.dirs ELSE base[1], toks |-> loc.toks]

\* what a name says: its systematics by dimension, with their values, given
\* how many components and words the unconvolved name has
Says(name, nd) ==
  {LET n == Count(name.dirs, i, name.dirs[i])
       at == Places(name.toks, name.dirs[i]) IN
   <<DimAt(name.dirs, i), name.dirs[i], IF n <= Len(at) THEN name.toks[at[n]].t ELSE "?">>
   : i \in {j \in nd+1..Len(name.dirs) : name.dirs[j] \in Systs}}

Texts(toks) == [i \in 1..Len(toks) |-> toks[i].t]
SameName(a, b) == a.dirs = b.dirs /\ Texts(a.toks) = Texts(b.toks)

-----------------------------------------------------------------------------
(* Spectra of a fit with pre-made convolutions, all on the axes of the data: *)
(* [loc: name, dec, rate] and files [name, cells, dec, below, fine]: fine    *)
(* cells per bin of the data, the first of them after the cells below it.    *)
FileAt(files, n) == {f \in files : SameName(f.name, n)}
AtOf(sp, base, ps) == ApplyAll(Start(sp.loc, base), ps)
HasFile(files, sp, base, ps) == FileAt(files, AtOf(sp, base, ps)) # {}
\* contents after loading: the file's, at the decays of the spectrum
Loaded(files, sp, base, ps) ==
  LET f == CHOOSE x \in FileAt(files, AtOf(sp, base, ps)) : TRUE IN
  RScaleSeq(RDiv(sp.dec, f.dec), f.cells)
\* the part of it in the range and the binning of the data
OnData(f, cells, n) ==
  [i \in 1..n |-> RSum(SubSeq(cells, f.below + (i - 1) * f.fine + 1, f.below + i * f.fine))]
\* contents in the expectation: scaled to the rate if there is one
InFit(files, sp, base, ps, rate, n) ==
  LET f == CHOOSE x \in FileAt(files, AtOf(sp, base, ps)) : TRUE IN
  RScaleSeq(RDiv(IF rate = "none" THEN sp.dec ELSE rate, f.dec), OnData(f, f.cells, n))
=============================================================================
