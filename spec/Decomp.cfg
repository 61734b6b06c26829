CONSTANTS
  MaxN = 7
  MaxP = 2
  MaxT = 3
SPECIFICATION Spec
INVARIANTS TypeOK CellsOwnedOnce NeighboursMutual TilesPartition
CHECK_DEADLOCK FALSE
