SPECIFICATION Spec
CONSTANTS
  NP = 4
  LO = 3
  HI = 7
  D = 3
  SHIFTS <- ShiftsB
INVARIANTS Bounds OwnCell Aligned Sorted
CHECK_DEADLOCK FALSE
