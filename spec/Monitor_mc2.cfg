SPECIFICATION Spec
CONSTANTS
  NThreads = 3
  NMons = 2
  MaxDepth = 2
  MaxLen = 1
  Record = FALSE
  Ok = 0
  Illegal = 8
  Interrupted = 9
  Pick <- PickAll
VIEW View
INVARIANTS TypeOK MutualExclusion NoIdleLock
PROPERTIES DepthKept WaitOnlyEndsByWakeup
CHECK_DEADLOCK FALSE
