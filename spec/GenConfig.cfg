SPECIFICATION GSpec
CONSTANTS
  One = 3
  Depth = 20
  Focus = "all"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
