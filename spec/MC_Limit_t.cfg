INIT Init
NEXT NextE
VIEW View
CONSTANTS
  MaxOps = 4
  Fits <- FitSetT
  Thresholds <- ThrSet
  Zeros <- ZeroSet
INVARIANTS Faithful OneAnswer Found Monotone Offset
CHECK_DEADLOCK FALSE
