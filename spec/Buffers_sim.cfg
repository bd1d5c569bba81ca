SPECIFICATION Spec
CONSTANTS
  Kinds = {"byte", "byte", "char"}
  Views = {1, 2, 3, 4}
  Units <- SimUnits
  MaxCap = 24
  Widths = {2, 4, 8}
  MaxLen = 100
  Record = TRUE
  Pick <- PickOne
  PickSeq <- PickSeqOne
CHECK_DEADLOCK FALSE
