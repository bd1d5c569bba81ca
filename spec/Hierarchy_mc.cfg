SPECIFICATION Spec
CONSTANTS
  MaxTypes = 3
  MaxFields = 0
  MaxQueries = 0
  Names = {"a"}
  Kinds = {"class", "abs", "iface"}
  FieldTypes = {"I"}
  Prims = {100}
  Steps = 1
  Record = FALSE
  Pick <- PickAll
INVARIANTS Order Arrays Selection Uniform FieldOwner
CHECK_DEADLOCK FALSE
