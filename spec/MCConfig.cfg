SPECIFICATION MCSpec
CONSTANTS
  One = 3
  Names = {"a", "b", "c"}
  MaxSteps = 3
  MaxSets = 1
INVARIANTS TypeOk AllCoherent PensCoherent Identity Idempotent RoundTrip Settled
PROPERTIES OneAtATime FilesFinal
CHECK_DEADLOCK FALSE
