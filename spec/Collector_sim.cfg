SPECIFICATION Spec
CONSTANTS
  Shapes = {"T", "S", "M", "L", "F", "G", "Z"}
  MaxObj = 60
  NRoots = 5
  TenureAge = 3
  FixTenureAge = 5
  MaxLen = 200
  Record = TRUE
  Barrier = TRUE
  Pick <- PickOne
CHECK_DEADLOCK FALSE
