INIT Init
NEXT NextE
CONSTANTS
  MaxOps = 2
  Cells = {"0", "3", "2.5"}
INVARIANTS TotalsShown TwoWays FitTwoWays
VIEW View
CHECK_DEADLOCK FALSE
