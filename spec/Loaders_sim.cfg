SPECIFICATION Spec
CONSTANTS
  Loaders = {1, 2, 3}
  Names = {1, 2, 3, 4, 5}
  MaxSteps = 60
  MaxLen = 1
  Record = TRUE
  Pick <- PickOne
  PickSeq <- PickSeqOne
CHECK_DEADLOCK FALSE
