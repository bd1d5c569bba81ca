SPECIFICATION Spec
CONSTANTS
  Kinds = {"hash", "linked", "treerev", "linkedset", "treeset"}
  Universes = {3}
  NVals = 1
  MaxLen = 1
  Bulk = 1
  Record = FALSE
  Pick <- PickAll
  PickSeq <- PickSeqAll
INVARIANTS TypeOK OrderOK SortedOK
PROPERTIES OrderStable
CHECK_DEADLOCK FALSE
