SPECIFICATION GSpec
CONSTANTS
  Depth = 20
  WCol = 50
  WSeq = 0
INVARIANTS OneLayout Emit
CHECK_DEADLOCK FALSE
