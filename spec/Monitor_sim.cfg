SPECIFICATION Spec
CONSTANTS
  NThreads = 4
  NMons = 3
  MaxDepth = 4
  MaxLen = 70
  Record = TRUE
  Ok = 0
  Illegal = 8
  Interrupted = 9
  Pick <- PickOne
CHECK_DEADLOCK FALSE
