SPECIFICATION TSpec
POSTCONDITION Matched
INVARIANTS PagesAreAncestors ChunksExist DistinctChunks PageTree
CHECK_DEADLOCK FALSE
