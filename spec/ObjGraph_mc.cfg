SPECIFICATION Spec
CONSTANTS
  Threads = {1}
  Shapes = {"P"}
  Hows = {1}
  FrameKinds = {0}
  MaxObj = 2
  NStat = 1
  NLoc = 2
  VMax = 1
  MaxDepth = 2
  MaxLen = 1
  Record = FALSE
  Pick <- PickAll
INVARIANTS TypeOK
PROPERTIES LiveUnchanged NoResurrection
CHECK_DEADLOCK FALSE
