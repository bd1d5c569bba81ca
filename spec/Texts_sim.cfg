SPECIFICATION Spec
CONSTANTS
  Kinds = {"string", "builder", "buffer", "bits"}
  Regs = {1, 2, 3}
  Ascii <- SimAscii
  Wide <- SimWide
  MaxIdx = 200
  MaxLen = 90
  MaxSize = 120
  Record = TRUE
  Pick <- PickOne
  PickSeq <- PickSeqOne
CHECK_DEADLOCK FALSE
