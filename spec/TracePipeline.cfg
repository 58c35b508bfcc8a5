SPECIFICATION TSpec
POSTCONDITION Matched
CHECK_DEADLOCK FALSE
