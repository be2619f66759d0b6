INIT Init
NEXT NextE
CONSTANTS Values = {"0", "1", "2"}
  Shapes <- ShapesT
INVARIANTS Right
CHECK_DEADLOCK FALSE
