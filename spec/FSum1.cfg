SPECIFICATION Spec
CONSTANTS
  Cut <- C21
  G <- G11
  Kind = "sum"
  Async = FALSE
INVARIANTS Synced Summed Emptied NoStop
