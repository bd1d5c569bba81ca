SPECIFICATION Spec
CONSTANTS
  MaxCode = 90
  MaxRun = 150
  MaxStack = 9
  Record = TRUE
  Pick <- PickOne
CHECK_DEADLOCK FALSE
