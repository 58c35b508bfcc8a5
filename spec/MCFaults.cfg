SPECIFICATION Spec
CONSTANTS
  Ops = 5
  Bytes = 3
INVARIANTS WholeFile NeverSilent
PROPERTIES Conforms
CHECK_DEADLOCK FALSE
