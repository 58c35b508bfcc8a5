SPECIFICATION TSpec
CONSTANTS
  One = 3
POSTCONDITION Matched
INVARIANTS PensCoherent
CHECK_DEADLOCK FALSE
