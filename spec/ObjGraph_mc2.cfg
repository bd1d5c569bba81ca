SPECIFICATION Spec
CONSTANTS
  Threads = {2}
  Shapes = {"P"}
  Hows = {1}
  FrameKinds = {0}
  MaxObj = 2
  NStat = 1
  NLoc = 1
  VMax = 1
  MaxDepth = 1
  MaxLen = 1
  Record = FALSE
  Pick <- PickAll
INVARIANTS TypeOK
PROPERTIES LiveUnchanged NoResurrection

