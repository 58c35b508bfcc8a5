SPECIFICATION GSpec
CONSTANTS
  MaxChunks = 1000
  MaxMoves = 1000
  WithBad = TRUE
  Kinds = {}
  Depth = 12
  WAdd = 50
  WMove = 18
  WBadAdd = 18
  WBadMove = 6
  WClose = 8
INVARIANTS Emit
CHECK_DEADLOCK FALSE
