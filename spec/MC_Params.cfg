INIT Init
NEXT NextE
VIEW View
CONSTANTS
  MaxOps = 4
  Modes = {"linear", "log", "dev"}
  Lows = {"1", "2"}
  Highs = {"9", "5/2"}
  BinsSet = {3}
  Priors = {"1", "5", "2"}
INVARIANTS CacheCurrent GridSound DevHasPrior RoundTrip AxisSound
CHECK_DEADLOCK FALSE
