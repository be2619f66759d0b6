INIT Init
NEXT NextE
VIEW View
CONSTANTS
  MaxOps = 5
  Wide = TRUE
INVARIANTS Complete Filtered Silent
CHECK_DEADLOCK FALSE
