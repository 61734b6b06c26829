CONSTANTS
  P1 = 1
  P2 = 1
  W = 1
  Parts = {}
  Kinds = {}
SPECIFICATION TraceSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
