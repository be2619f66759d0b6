INIT Init
NEXT NextE
VIEW View
CONSTANTS
  MaxOps = 3
  Dims = {"energy_mc", "radial3_mc"}
  Starts <- StartSet
  Values <- ValueSet
INVARIANTS Tells Again Stable Keeps Words
CHECK_DEADLOCK FALSE
