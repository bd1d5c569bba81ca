SPECIFICATION Spec
CONSTANTS
  Shapes = {"x", "p"}
  MaxObj = 3
  NRoots = 2
  TenureAge = 1
  FixTenureAge = 2
  MaxLen = 1
  Record = FALSE
  Barrier = TRUE
  Pick <- PickAll
INVARIANTS NoneLost RememberedComplete NoDangling
PROPERTIES MajorExact
CHECK_DEADLOCK FALSE
