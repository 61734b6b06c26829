SPECIFICATION Spec
CONSTANTS N = 5
 W = 3
 MaxRanks = 3
INVARIANTS OnceEach AllThere Own
CHECK_DEADLOCK FALSE
