----------------------------- MODULE MC_GridArr -----------------------------
(* find_minimum on every array of a small shape.                              *)
EXTENDS Grid, TLC, Json
CONSTANTS Values, Shapes
ShapesQ == {<<2, 2, 2>>, <<1, 2, 3>>, <<3, 2>>}
ShapesT == ShapesQ \cup {<<3, 1, 1, 2>>, <<2, 1, 2, 2>>}
VARIABLES sh, arr
Init == sh \in Shapes /\ arr = <<>>
Next == /\ Len(arr) < Prod(sh)
        /\ \E v \in Values : arr' = Append(arr, v)
        /\ UNCHANGED sh
NextE == Next /\ (Len(arr') = Prod(sh) =>
           PrintT(ToJson(<<[op |-> "find", shape |-> sh, arr |-> arr']>>)))
Right == (Len(arr) = Prod(sh) /\ SomeNumber(arr)) =>
  LET m == FindMinimum(sh, [i \in 1..Len(arr) |-> IF RIsNan(arr[i]) THEN "inf" ELSE arr[i]]) IN
  /\ m.min = Lowest(arr) /\ arr[Flat(sh, m.at) + 1] = m.min
=============================================================================
