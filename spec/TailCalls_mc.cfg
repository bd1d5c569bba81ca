SPECIFICATION Spec
CONSTANTS
  Kinds = {"static"}
  Types = {"I"}
  Results = {"I"}
  Modes = {"tail", "catch"}
  NM = 2
  MaxParams = 1
  Counts = {0, 3}
  LongCounts = {20}
  MaxLen = 1
  Record = FALSE
  Pick <- PickAll
  PickSeq <- PickSeqAll
INVARIANTS LeanOK SameOK BoundedOK
CHECK_DEADLOCK FALSE
