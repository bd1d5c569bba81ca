SPECIFICATION Spec
CONSTANTS
  Kinds = {"byte"}
  Views = {1, 2}
  Units <- MCUnits
  MaxCap = 2
  Widths = {2}
  MaxLen = 1
  Record = FALSE
  Pick <- PickAll
  PickSeq <- PickSeqAll
INVARIANTS IndexOK SharedOK
PROPERTIES ReadOnlyOK
CHECK_DEADLOCK FALSE
