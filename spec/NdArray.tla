------------------------------- MODULE NdArray -------------------------------
(* n-dimensional arrays as (shape, row-major sequence of cells): see          *)
(* NdArrayDef.  TLC evaluates the operators below by java/NdArray.java, which *)
(* MC_NdArray checks against the definitions.                                 *)
EXTENDS Integers, Sequences, RealK
D == INSTANCE NdArrayDef
Prod(s) == D!Prod(s)
Flat(shape, t) == D!Flat(shape, t)
Unflat(shape, f) == D!Unflat(shape, f)
Slice(shape, data, lo, n) == D!Slice(shape, data, lo, n)
Merge(shape, data, n) == D!Merge(shape, data, n)
Marginal(shape, data, Keep) == D!Marginal(shape, data, Keep)
KeptAxes(shape, Keep) == D!KeptAxes(shape, Keep)
SubShape(shape, ks) == D!SubShape(shape, ks)
=============================================================================
