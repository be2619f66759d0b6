INIT Init
NEXT NextE
VIEW View
CONSTANTS
  MaxOps = 4
  Shifts <- ShiftSet
  Smears <- SmearSet
INVARIANTS Accounted NonNeg Back Compose SmearKeeps SmearLinear
CHECK_DEADLOCK FALSE
