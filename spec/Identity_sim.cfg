SPECIFICATION Spec
CONSTANTS
  KindsC = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
  NSlots = 7
  MaxObj = 100
  Lits = {1, 2}
  Contents = {1, 2, 3, 4, 5}
  MaxLen = 120
  Record = TRUE
  Pick <- PickOne
CHECK_DEADLOCK FALSE
