SPECIFICATION Spec
CONSTANTS
  Fins = {0, 1, 2, 3}
  Kinds = {"weak", "soft", "phantom"}
  NRoots = 5
  NRefs = 6
  NQueues = 2
  MaxObj = 100
  MaxLen = 120
  Record = TRUE
  Pick <- PickOne
CHECK_DEADLOCK FALSE
