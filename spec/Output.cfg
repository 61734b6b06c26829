SPECIFICATION Spec
CONSTANTS
  P = 2
  NMax = 4
  Steps = 4
  Quantities = 2
  Freq = 2
  Period = 2
  Kinds = 3
  UHead = 9
  UTemp = 1
INVARIANTS WrittenOnce Full SameOrder TempFiles
CHECK_DEADLOCK FALSE
