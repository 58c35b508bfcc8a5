SPECIFICATION GSpec
CONSTANTS
  MaxItems = 7
  MaxWorkers = 4
  Whats = {"read", "concat", "map", "copc", "laz"}
  BadPercent = 30
INVARIANT Emit
CHECK_DEADLOCK FALSE
