SPECIFICATION Spec
CONSTANTS
  Size = 4
  MaxBad = 1
INVARIANTS AnswerOk LoadedSeen
CHECK_DEADLOCK FALSE
