INIT Init
NEXT NextE
VIEW View
CONSTANTS
  MaxOps = 4
  Isos <- IsoSet
  Starts <- StartSet
  Times = {"none", "1"}
INVARIANTS PathFree Linear AtomsScale Falling
CHECK_DEADLOCK FALSE
