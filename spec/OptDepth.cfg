SPECIFICATION Spec
CONSTANTS
  Rates = {0, 1, 2, 5}
  Units = 4
  MaxDepth = 12
INVARIANTS Remains Right
CHECK_DEADLOCK FALSE
