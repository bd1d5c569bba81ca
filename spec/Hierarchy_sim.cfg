SPECIFICATION Spec
CONSTANTS
  MaxTypes = 9
  MaxFields = 3
  MaxQueries = 60
  Names = {"a", "b", "d", "h"}
  Kinds = {"class", "abs", "iface"}
  FieldTypes = {"I", "B", "S", "C", "J", "Z", "F", "D", "L"}
  Prims = {100, 101, 102, 103, 104, 105, 106, 107}
  Steps = 14
  Record = TRUE
  Pick <- PickOne
CHECK_DEADLOCK FALSE
