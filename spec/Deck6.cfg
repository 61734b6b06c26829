SPECIFICATION Spec
CONSTANTS MaxLines = 6
 MaxArgs = 1
INVARIANTS LastWins OwnSpecies OwnDumps NoNewNames
CHECK_DEADLOCK FALSE
