INIT Init
NEXT NextE
VIEW View
CONSTANTS
  MaxDecays = 3
  AxesSet <- Few
  FvSet = {"none", "3000"}
  Exts = {TRUE, FALSE}
  Decays <- FewDecays
INVARIANTS FormatsAgree CountsAll FilesAdd CutsRemove BiPoSingle
CHECK_DEADLOCK FALSE
