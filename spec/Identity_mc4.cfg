SPECIFICATION Spec
CONSTANTS
  KindsC = {1, 7, 9}
  NSlots = 2
  MaxObj = 3
  Lits = {1}
  Contents = {1, 2}
  MaxLen = 1
  Record = FALSE
  Pick <- PickAll
INVARIANTS TypeOK CanonOK LiteralsStay
PROPERTIES CanonStable HashStable
CHECK_DEADLOCK FALSE
