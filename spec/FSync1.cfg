SPECIFICATION Spec
CONSTANTS
  Cut <- C22
  G <- G11
  Kind = "sync"
  Async = FALSE
INVARIANTS Synced Summed Emptied NoStop
