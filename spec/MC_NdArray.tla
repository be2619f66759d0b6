----------------------------- MODULE MC_NdArray ------------------------------
(* The Java evaluation of NdArray agrees with its definitions, on every array *)
(* of the shapes below.                                                       *)
EXTENDS NdArray, FiniteSets, TLC
VARIABLES shape
Shapes == {<<n>> : n \in 1..6} \cup {<<a, b>> : a \in 1..4, b \in 1..4}
          \cup {<<a, b, c>> : a \in {1, 2, 4}, b \in {1, 3}, c \in {1, 2}}
Init == shape \in Shapes
Next == UNCHANGED shape
N == D!Prod(shape)
Data == [i \in 1..N |-> RMul(i, IF i % 2 = 0 THEN "0.3" ELSE "-1/7")]
\* all tuples t with 0 <= t[k] < s[k]
Tuples(s) == {D!Unflat(s, f) : f \in 0..(D!Prod(s) - 1)}
Num(s) == [i \in 1..Len(s) |-> RNorm(s[i])]
Indexing ==
  /\ Prod(shape) = N
  /\ \A f \in 0..(N - 1) : /\ Unflat(shape, f) = D!Unflat(shape, f)
                           /\ Flat(shape, Unflat(shape, f)) = f
  /\ \A t \in Tuples(shape) : Flat(shape, t) = D!Flat(shape, t)
Slicing ==
  \A lo \in Tuples(shape) :
    \A n \in Tuples([k \in 1..Len(shape) |-> shape[k] - lo[k] + 1]) :
      Slice(shape, Data, lo, n) = D!Slice(shape, Data, lo, n)
Divides(n) == \A k \in 1..Len(n) : n[k] > 0 /\ shape[k] % n[k] = 0
Merging ==
  \A n \in Tuples([k \in 1..Len(shape) |-> shape[k] + 1]) :
    Divides(n) => Num(Merge(shape, Data, n)) = Num(D!Merge(shape, Data, n))
Summing ==
  \A K \in SUBSET (1..Len(shape)) :
    Num(Marginal(shape, Data, K)) = Num(D!Marginal(shape, Data, K))
=============================================================================
