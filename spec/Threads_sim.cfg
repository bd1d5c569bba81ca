SPECIFICATION Spec
CONSTANTS
  NThreads = 5
  Vals = {1, 2, 3, 4}
  MaxLen = 90
  Record = TRUE
  Ok = 0
  Illegal = 8
  Interrupted = 9
  BadArg = 11
  Pick <- PickOne
CHECK_DEADLOCK FALSE
