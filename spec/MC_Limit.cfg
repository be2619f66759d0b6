INIT Init
NEXT NextE
VIEW View
CONSTANTS
  MaxOps = 4
  Fits <- FitSet
  Thresholds <- ThrSet
  Zeros <- ZeroSet
INVARIANTS Faithful OneAnswer Found Monotone Offset
CHECK_DEADLOCK FALSE
