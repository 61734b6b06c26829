SPECIFICATION BalSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
