SPECIFICATION Spec
CONSTANTS
  Cut <- C31
  G <- G21
  Kind = "sync"
  Async = FALSE
INVARIANTS Synced Summed Emptied NoStop
