----------------------------- MODULE NdArrayDef ------------------------------
(* n-dimensional arrays as (shape, row-major sequence of cells).             *)
EXTENDS Integers, Sequences, RealK

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))

\* 0-based flat position of 0-based index tuple t
RECURSIVE FlatAt(_, _, _, _)
FlatAt(shape, t, k, acc) ==
  IF k > Len(shape) THEN acc
  ELSE FlatAt(shape, t, k + 1, acc * shape[k] + t[k])
Flat(shape, t) == FlatAt(shape, t, 1, 0)

\* inverse of Flat
Unflat(shape, f) ==
  [k \in 1..Len(shape) |->
     (f \div Prod(SubSeq(shape, k + 1, Len(shape)))) % shape[k]]

\* cells lo[k] .. lo[k]+n[k]-1 along every axis
Slice(shape, data, lo, n) ==
  [c \in 1..Prod(n) |->
     LET u == Unflat(n, c - 1) IN
     data[Flat(shape, [k \in 1..Len(n) |-> u[k] + lo[k]]) + 1]]

\* merge groups of shape[k]/n[k] consecutive cells along every axis
Merge(shape, data, n) ==
  LET g == [k \in 1..Len(n) |-> shape[k] \div n[k]]
      gn == Prod(g)
  IN [c \in 1..Prod(n) |->
       LET u == Unflat(n, c - 1) IN
       RSum([o \in 1..gn |->
          LET v == Unflat(g, o - 1) IN
          data[Flat(shape, [k \in 1..Len(n) |-> u[k] * g[k] + v[k]]) + 1]])]

\* sum over the axes not in Keep (a set of axis numbers); axes keep their order
KeptAxes(shape, Keep) == SelectSeq([k \in 1..Len(shape) |-> k], LAMBDA k : k \in Keep)
SubShape(shape, ks) == [i \in 1..Len(ks) |-> shape[ks[i]]]
Marginal(shape, data, Keep) ==
  LET ks == KeptAxes(shape, Keep)
      os == KeptAxes(shape, (1..Len(shape)) \ Keep)
      kn == SubShape(shape, ks)
      on == SubShape(shape, os)
      Pos(k, s) == CHOOSE i \in 1..Len(s) : s[i] = k
      kp == [k \in Keep |-> Pos(k, ks)]
      op == [k \in (1..Len(shape)) \ Keep |-> Pos(k, os)]
      Cell(a, b) == data[Flat(shape, [k \in 1..Len(shape) |->
                       IF k \in Keep THEN a[kp[k]] ELSE b[op[k]]]) + 1]
  IN [c \in 1..Prod(kn) |->
       RSum([o \in 1..Prod(on) |-> Cell(Unflat(kn, c - 1), Unflat(on, o - 1))])]
=============================================================================
