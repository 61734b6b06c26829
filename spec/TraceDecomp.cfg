CONSTANTS
  MaxN = 1
  MaxP = 1
  MaxT = 1
SPECIFICATION TraceSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
