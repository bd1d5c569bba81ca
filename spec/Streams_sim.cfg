SPECIFICATION Spec
CONSTANTS
  MaxSteps = 90
  MaxLen = 30
  Record = TRUE
  Pick <- PickOne
  PickSeq <- PickSeqOne
CHECK_DEADLOCK FALSE
