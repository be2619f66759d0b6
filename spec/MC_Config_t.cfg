INIT Init
NEXT NextE
VIEW View
CONSTANTS MaxOps = 5
  SingleNames = {"energy_scale", "energy_resolution", "energy_shift"}
INVARIANTS TypeOK OwnName AlwaysDumpable TripKeeps TripOthers BasicForgets SourcesStay
PROPERTIES Grows
CHECK_DEADLOCK FALSE
