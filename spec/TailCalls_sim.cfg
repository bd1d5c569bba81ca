SPECIFICATION Spec
CONSTANTS
  Kinds = {"static", "virtual", "interface", "special", "super", "lazyStatic", "lazyVirtual"}
  Types = {"I", "J", "D", "L"}
  Results = {"I", "J", "D", "L", "F", "V"}
  Modes = {"tail", "plus", "catch", "finally", "sync"}
  NM = 5
  MaxParams = 8
  Counts = {1, 2, 5, 9, 14, 20, 27}
  LongCounts = {200000, 200001, 300007}
  MaxLen = 1
  Record = TRUE
  Pick <- PickOne
  PickSeq <- PickSeqOne
CHECK_DEADLOCK FALSE
