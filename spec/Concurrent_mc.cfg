SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  MaxOps = 1
  MaxSteps = 0
  Kinds = {"int", "ref", "clq", "map", "lbq", "task"}
  Record = FALSE
  Pick <- PickAll
  PickSeq <- PickSeqAll
INVARIANT ExplainedOK
INVARIANT CapacityOK
PROPERTY TaskOK
CHECK_DEADLOCK FALSE
