CONSTANTS
  NT = 2
  CX <- C3
  CZ <- C3
  G = 2
  Locked = TRUE
SPECIFICATION Spec
INVARIANTS RaceFree Final
CHECK_DEADLOCK FALSE
