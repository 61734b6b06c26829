SPECIFICATION Spec
CONSTANTS
  N = 4
  NP = 3
  COST = 2
INVARIANTS Shared Fair Moved
PROPERTY Done
CHECK_DEADLOCK FALSE
