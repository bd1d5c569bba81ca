SPECIFICATION Spec
CONSTANTS
  MaxSteps = 4
  MaxLen = 3
  Record = FALSE
  Pick <- PickAll
  PickSeq <- PickSeqAll
INVARIANT BoundsOK
INVARIANT CodeOK
PROPERTY ForwardOK
PROPERTY OutOK
CHECK_DEADLOCK FALSE
