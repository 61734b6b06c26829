SPECIFICATION Spec
CONSTANTS MaxLines = 5
 MaxArgs = 1
INVARIANTS LastWins OwnSpecies OwnDumps NoNewNames
CHECK_DEADLOCK FALSE
