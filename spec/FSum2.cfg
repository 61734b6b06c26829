SPECIFICATION Spec
CONSTANTS
  Cut <- C21
  G <- G11
  Kind = "sum"
  Async = TRUE
INVARIANTS Synced Summed Emptied NoStop
