SPECIFICATION Spec
CONSTANTS N = 2
INVARIANTS Inverse Mixed Unique Floors Exact Apart Entries
CHECK_DEADLOCK FALSE
