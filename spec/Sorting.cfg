SPECIFICATION Spec
CONSTANTS
  NP = 3
  LO = 0
  HI = 5
  D = 2
  SHIFTS <- ShiftsA
INVARIANTS Bounds OwnCell Aligned Sorted
PROPERTY Terminates
CHECK_DEADLOCK FALSE
