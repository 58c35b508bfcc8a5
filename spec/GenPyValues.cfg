SPECIFICATION GSpec
CONSTANTS
  Depth = 20
INVARIANTS WellNamed Emit
CHECK_DEADLOCK FALSE
