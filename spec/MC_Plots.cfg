INIT Init
NEXT NextE
CONSTANTS
  MaxOps = 1
  Cells = {"0", "3"}
INVARIANTS TotalsShown TwoWays FitTwoWays
VIEW View
CHECK_DEADLOCK FALSE
