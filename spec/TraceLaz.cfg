SPECIFICATION TSpec
POSTCONDITION Matched
INVARIANTS ChunkHasPoints
CHECK_DEADLOCK FALSE
