SPECIFICATION Spec
CONSTANTS
  Kinds = {"array", "linked", "vector", "stack", "deque", "aslist", "sync"}
  Vals <- MCVals
  MaxLen = 1
  MaxSize = 4
  Bulk = 2
  Record = FALSE
  Pick <- PickAll
  PickSeq <- PickSeqAll
INVARIANTS TypeOK IterOK Laws
PROPERTIES Small
CHECK_DEADLOCK FALSE
