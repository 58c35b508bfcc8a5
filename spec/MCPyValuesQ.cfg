SPECIFICATION Spec
CONSTANTS
  MaxObjs = 2
  T = {"t"}
INVARIANTS WellNamed
PROPERTIES Apart SnapshotsStay Fresh
CHECK_DEADLOCK FALSE
