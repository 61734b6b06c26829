SPECIFICATION PicSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
