SPECIFICATION TSpec
POSTCONDITION Matched
INVARIANTS ChunksExist
CHECK_DEADLOCK FALSE
