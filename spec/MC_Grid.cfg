INIT Init
NEXT NextE
VIEW View
CONSTANTS Values = {"0", "3"}
  Shapes <- ShapesQ
  PerBin = {FALSE, TRUE}
  Penalties = {"0", "1"}
INVARIANTS Untouched Written CellsAreCombinations BothMethodsAgree SlicesAgree ProjectionTotals
CHECK_DEADLOCK FALSE
