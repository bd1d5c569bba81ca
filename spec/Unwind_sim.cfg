SPECIFICATION Spec
CONSTANTS
  Kinds = {"static", "virtual", "interface", "syncStatic", "syncVirtual", "reflectStatic", "reflectVirtual", "constructor", "special", "tail"}
  Thrown = {"E0", "E1", "E2", "E3", "R0"}
  Implicit = {"NullPointerException", "ArithmeticException", "ClassCastException", "ArrayStoreException", "NegativeArraySizeException", "ArrayIndexOutOfBoundsException"}
  Caught = {"E0", "E1", "E2", "E3", "R0", "NullPointerException", "ArithmeticException", "ClassCastException", "ArrayIndexOutOfBoundsException", "IndexOutOfBoundsException", "InvocationTargetException", "RuntimeException", "Exception", "Error", "Throwable"}
  Mons = {1, 2, 3, 4}
  MaxDepth = 14
  MaxLen = 1
  MaxStmts = 45
  Record = TRUE
  Pick <- PickOne
  PickSeq <- PickSeqOne
CHECK_DEADLOCK FALSE
