SPECIFICATION Spec
CONSTANTS
  MaxItems = 3
  MaxWorkers = 2
  Whats = {"copc", "concat", "map"}
INVARIANTS Correct Queued
PROPERTY Ends
CHECK_DEADLOCK FALSE
