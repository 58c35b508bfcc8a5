SPECIFICATION Spec
CONSTANTS
  MaxChunks = 3
  MaxMoves = 1
  WithBad = TRUE
  Kinds = {"raw", "comp", "ragged", "empty", "nopoints", "nodata", "misfit"}
INVARIANTS PagesAreAncestors ChunksExist DistinctChunks PageTree
PROPERTIES FrozenM NeverReopenedM RefusedKeepsFile
CHECK_DEADLOCK FALSE
