CONSTANTS
  U = 2
  Dim = 3
  Orders = {1,2}
  Step = 1
  H = 4
SPECIFICATION Spec
INVARIANTS Unity Centre Positive Continuity TotalCurrent Compact
