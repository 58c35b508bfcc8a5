SPECIFICATION Spec
CONSTANTS MaxChunks = 5
INVARIANTS Consistent ChunkHasPoints Bound
PROPERTIES Frozen
CHECK_DEADLOCK FALSE
