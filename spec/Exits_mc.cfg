SPECIFICATION Spec
CONSTANTS
  N = 3
  Record = FALSE
  Pick <- PickAll
INVARIANT NobodyCut
PROPERTY Terminates
CHECK_DEADLOCK FALSE
