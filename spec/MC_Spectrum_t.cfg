INIT Init
NEXT NextE
VIEW View
CONSTANTS MaxOps = 4
INVARIANTS ShapeOk HistogramOfLedger ProjectionsAgree ScaleChains EffOk RebinComposes
CHECK_DEADLOCK FALSE
