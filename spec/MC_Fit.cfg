INIT Init
NEXT NextE
VIEW View
CONSTANTS
  MaxOps = 2
  Globs <- GlobSets
  Points <- PointSet
INVARIANTS FreshCache CheckedHolds SumOfParts
CHECK_DEADLOCK FALSE
