INIT Init
NEXT NextE
VIEW View
CONSTANTS
  MaxOps = 6
  Modes = {"linear", "log", "dev"}
  Lows = {"1", "2", "1/8"}
  Highs = {"9", "5/2", "100"}
  BinsSet = {3}
  Priors = {"1", "5", "2", "9"}
INVARIANTS CacheCurrent GridSound DevHasPrior RoundTrip AxisSound
CHECK_DEADLOCK FALSE
