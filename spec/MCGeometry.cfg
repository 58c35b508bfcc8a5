SPECIFICATION Spec
CONSTANTS
  N = 3
  D = 2
INVARIANTS SetIntersect SetContain Symmetric WithinIntersects CellNesting CellDirect ChildrenOk ChainOk CellsDisjoint
CHECK_DEADLOCK FALSE
