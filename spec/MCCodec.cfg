SPECIFICATION MSpec
CONSTANTS
  Records = {1, 2}
  MaxRows = 2
  MaxPuts = 3
INVARIANTS GetsWhatWasPut
PROPERTIES AppendOnly
CHECK_DEADLOCK FALSE
