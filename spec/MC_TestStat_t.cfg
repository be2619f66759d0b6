INIT MInit
NEXT NextE
CONSTANTS
  Counts <- CountsSmall
  MaxBins = 3
INVARIANTS NonNegative ZeroAtEquality OnlyAtEquality UpIsOneSided ChiIsTwiceLL Additive PenaltyShape
CHECK_DEADLOCK FALSE
