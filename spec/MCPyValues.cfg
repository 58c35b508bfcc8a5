SPECIFICATION Spec
CONSTANTS
  MaxObjs = 3
  T = {"t"}
INVARIANTS WellNamed
PROPERTIES Apart SnapshotsStay Fresh
CHECK_DEADLOCK FALSE
