CONSTANTS
  MaxN = 9
  MaxP = 3
  MaxT = 2
SPECIFICATION Spec
INVARIANTS TypeOK CellsOwnedOnce NeighboursMutual TilesPartition
CHECK_DEADLOCK FALSE
