INIT TInit
NEXT TNext
CONSTANTS
  Counts = {}
  MaxBins = 0
CHECK_DEADLOCK FALSE
