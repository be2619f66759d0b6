INIT Init
NEXT NextE
VIEW View
CONSTANTS MaxOps = 3
  SingleNames = {"energy_scale", "energy_resolution"}
INVARIANTS TypeOK OwnName AlwaysDumpable TripKeeps TripOthers BasicForgets SourcesStay
PROPERTIES Grows
CHECK_DEADLOCK FALSE
