INIT Init
NEXT NextE
CONSTANTS Values = {"0", "1", "nan"}
  Shapes <- ShapesQ
INVARIANTS Right
CHECK_DEADLOCK FALSE
