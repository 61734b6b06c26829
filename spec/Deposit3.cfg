CONSTANTS
  U = 4
  Dim = 2
  Orders = {1,2}
  Step = 2
  H = 4
SPECIFICATION Spec
INVARIANTS Unity Centre Positive Continuity TotalCurrent Compact
