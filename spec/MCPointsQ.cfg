SPECIFICATION Spec
CONSTANTS
  MaxHeap = 2
  MaxCol = 1
INVARIANTS OneLayout Bytes BitLaws
PROPERTIES ExtraKept ConversionKeeps
CHECK_DEADLOCK FALSE
