CONSTANTS
  P1 = 2
  P2 = 2
  W = 2
  Parts = {1}
  Kinds = {0, 1, 2, 3}
SPECIFICATION Spec
INVARIANTS TypeOK OnePlace Delivered Counted OutcomeOK
CHECK_DEADLOCK FALSE
