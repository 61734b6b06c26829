CONSTANTS
  NT = 3
  CX <- C3
  CZ <- C2
  G = 2
  Locked = TRUE
SPECIFICATION Spec
INVARIANTS RaceFree Final
CHECK_DEADLOCK FALSE
