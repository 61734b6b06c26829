SPECIFICATION LoadSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
