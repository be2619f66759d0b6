CONSTANTS
  MaxRuns = 3
  Wide = {TRUE}
INIT Init
NEXT NextE
VIEW View
INVARIANTS OneFile InputsKept NamesApart Extension Content
CHECK_DEADLOCK FALSE
