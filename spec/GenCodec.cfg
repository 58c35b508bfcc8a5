SPECIFICATION GSpec
CONSTANTS
  Depth = 20
INVARIANTS Emit
CHECK_DEADLOCK FALSE
