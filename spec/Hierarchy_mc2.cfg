SPECIFICATION Spec
CONSTANTS
  MaxTypes = 4
  MaxFields = 1
  MaxQueries = 0
  Names = {}
  Kinds = {"class", "abs", "iface"}
  FieldTypes = {"I"}
  Prims = {100}
  Steps = 1
  Record = FALSE
  Pick <- PickAll
INVARIANTS Order Arrays Selection Uniform FieldOwner
CHECK_DEADLOCK FALSE
