CONSTANTS
  NT = 2
  CX <- C2
  CZ <- C2
  G = 1
  Locked = FALSE
SPECIFICATION Spec
INVARIANTS RaceFree Final
CHECK_DEADLOCK FALSE
