INIT Init
NEXT NextE
VIEW View
CONSTANTS
  MaxOps = 7
  Paths = {"a.hdf5", "b.hdf5"}
  Grps = {"spectrum", "fit", "limit"}
  Variants = {1, 2}
INVARIANTS Recall Refusals NoInvention Separate
CHECK_DEADLOCK FALSE
