CONSTANTS
  P1 = 2
  P2 = 2
  W = 1
  Parts = {1, 2}
  Kinds = {0, 1}
SPECIFICATION Spec
INVARIANTS TypeOK OnePlace Delivered Counted OutcomeOK
CHECK_DEADLOCK FALSE
