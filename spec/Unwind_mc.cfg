SPECIFICATION Spec
CONSTANTS
  Kinds = {"static", "syncVirtual", "syncStatic", "reflectStatic", "tail"}
  Thrown = {"E1"}
  Implicit = {"ArithmeticException"}
  Caught = {"E0", "Exception"}
  Mons = {1, 2}
  MaxDepth = 3
  MaxLen = 1
  MaxStmts = 5
  Record = FALSE
  Pick <- PickAll
  PickSeq <- PickSeqAll
INVARIANTS LocksOK EndOK FinallyOK HandlerOK
PROPERTIES LeftOK
CHECK_DEADLOCK FALSE
