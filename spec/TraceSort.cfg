SPECIFICATION SortSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
