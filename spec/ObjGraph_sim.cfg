SPECIFICATION Spec
CONSTANTS
  Threads = {1, 3}
  Shapes = {"P", "Q", "R", "B", "A", "M", "L", "I", "Y"}
  Hows = {1, 2, 3, 4}
  FrameKinds = {0, 1, 2, 3, 4, 5}
  MaxObj = 40
  NStat = 4
  NLoc = 3
  VMax = 99
  MaxDepth = 6
  MaxLen = 120
  Record = TRUE
  Pick <- PickOne
CHECK_DEADLOCK FALSE
