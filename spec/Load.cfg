SPECIFICATION Spec
CONSTANTS N = 4
 W = 3
 MaxRanks = 3
INVARIANTS OnceEach AllThere Own
CHECK_DEADLOCK FALSE
