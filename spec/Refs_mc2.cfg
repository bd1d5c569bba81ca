SPECIFICATION Spec
CONSTANTS
  Fins = {0, 2}
  Kinds = {"weak"}
  NRoots = 2
  NRefs = 1
  NQueues = 1
  MaxObj = 2
  MaxLen = 1
  Record = FALSE
  Pick <- PickAll
CONSTRAINT Bound
INVARIANTS TypeOK OnceQueued SettledClean
PROPERTIES NeverEarly FinalizedOnce
CHECK_DEADLOCK FALSE
