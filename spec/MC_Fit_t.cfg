INIT Init
NEXT NextE
VIEW View
CONSTANTS
  MaxOps = 4
  Globs <- GlobSetsT
  Points <- PointSet
INVARIANTS FreshCache CheckedHolds SumOfParts
CHECK_DEADLOCK FALSE
