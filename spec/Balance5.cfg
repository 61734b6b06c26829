SPECIFICATION Spec
CONSTANTS
  N = 5
  NP = 2
  COST = 2
INVARIANTS Shared Fair Moved
CHECK_DEADLOCK FALSE
