SPECIFICATION Spec
CONSTANTS
  N = 5
  Record = TRUE
  Pick <- PickOne
CHECK_DEADLOCK FALSE
