SPECIFICATION Spec
CONSTANTS
  Kinds = {"array", "linked", "vector", "stack", "deque", "aslist", "sync"}
  Vals <- SimVals
  MaxLen = 110
  MaxSize = 60
  Bulk = 20
  Record = TRUE
  Pick <- PickOne
  PickSeq <- PickSeqOne
CHECK_DEADLOCK FALSE
