INIT Init
NEXT NextE
VIEW View
CONSTANTS
  MaxOps = 4
  Wide = FALSE
INVARIANTS Complete Filtered Silent
CHECK_DEADLOCK FALSE
