SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3, 4}
  MaxOps = 4
  MaxSteps = 0
  Kinds = {"int", "long", "ref", "bool", "arr", "clq", "map", "lbq", "move", "bulk", "task"}
  Record = TRUE
  Pick <- PickOne
  PickSeq <- PickSeqOne
CHECK_DEADLOCK FALSE
