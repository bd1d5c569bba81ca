SPECIFICATION Spec
CONSTANTS
  Loaders = {1, 2}
  Names = {1, 2}
  MaxSteps = 6
  MaxLen = 1
  Record = FALSE
  Pick <- PickAll
  PickSeq <- PickSeqAll
INVARIANTS UniqueOK OwnOK SuperOK
PROPERTIES StableOK
CHECK_DEADLOCK FALSE
