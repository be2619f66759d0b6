INIT Init
NEXT NextE
VIEW View
CONSTANTS
  MaxOps = 4
  Dims = {"energy_mc", "radial3_mc", "energy"}
  Starts <- StartSet
  Values <- ValueSetT
INVARIANTS Tells Again Stable Keeps Words
CHECK_DEADLOCK FALSE
