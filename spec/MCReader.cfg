SPECIFICATION Spec
CONSTANTS
  Size = 5
  MaxBad = 2
INVARIANTS AnswerOk LoadedSeen
CHECK_DEADLOCK FALSE
