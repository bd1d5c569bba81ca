SPECIFICATION Spec
CONSTANTS
  NThreads = 3
  Vals = {}
  MaxLen = 1
  Record = FALSE
  Ok = 0
  Illegal = 8
  Interrupted = 9
  BadArg = 11
  Pick <- PickAll
VIEW View
CONSTRAINT Few
INVARIANTS TypeOK RunsOnce JoinWaits
PROPERTIES JoinEnds InterruptKept LocalsPrivate DeadStaysDead
CHECK_DEADLOCK FALSE
