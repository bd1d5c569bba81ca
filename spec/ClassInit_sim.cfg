SPECIFICATION Spec
CONSTANTS
  N = 5
  T = 3
  MaxSteps = 45
  Active = {"new", "get", "put", "call", "empty", "forName", "newInstance", "invoke", "fieldGet", "inheritedGet", "inheritedCall"}
  Passive = {"instanceof", "array", "literal", "forNameFalse", "constant"}
  Throws = {"runtime", "checked", "error"}
  Variants = {0, 1}
  Record = TRUE
  Pick <- PickOne
CHECK_DEADLOCK FALSE
