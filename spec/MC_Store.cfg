INIT Init
NEXT NextE
VIEW View
CONSTANTS
  MaxOps = 6
  Paths = {"a.hdf5", "b.hdf5"}
  Grps = {"spectrum", "fit"}
  Variants = {1, 2}
INVARIANTS Recall Refusals NoInvention Separate
CHECK_DEADLOCK FALSE
