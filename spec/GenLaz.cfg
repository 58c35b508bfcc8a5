SPECIFICATION GSpec
CONSTANTS
  MaxChunks = 1000
  Depth = 10
  WGood = 60
  WBad = 22
INVARIANTS Emit
CHECK_DEADLOCK FALSE
