SPECIFICATION Spec
CONSTANTS
  MaxHeap = 2
  MaxCol = 2
INVARIANTS OneLayout Bytes BitLaws
PROPERTIES ExtraKept ConversionKeeps
CHECK_DEADLOCK FALSE
