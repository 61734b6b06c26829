CONSTANTS
  U = 4
  Dim = 1
  Orders = {1,2,3}
  Step = 1
  H = 4
SPECIFICATION Spec
INVARIANTS Unity Centre Positive Continuity TotalCurrent Compact
