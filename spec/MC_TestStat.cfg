INIT MInit
NEXT NextE
CONSTANTS
  Counts <- CountsSmall
  MaxBins = 2
INVARIANTS NonNegative ZeroAtEquality OnlyAtEquality UpIsOneSided ChiIsTwiceLL Additive PenaltyShape
CHECK_DEADLOCK FALSE
