SPECIFICATION GSpec
CONSTANTS
  Size = 6
  MaxBad = 1
  Depth = 10
  PageBias = 45
INVARIANTS Emit
CHECK_DEADLOCK FALSE
