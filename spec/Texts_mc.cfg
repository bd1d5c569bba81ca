SPECIFICATION Spec
CONSTANTS
  Kinds = {"string", "builder", "bits"}
  Regs = {1, 2}
  Ascii <- MCAscii
  Wide = {}
  MaxIdx = 3
  MaxLen = 1
  MaxSize = 2
  Record = FALSE
  Pick <- PickAll
  PickSeq <- PickSeqAll
INVARIANTS TypeOK Laws BuilderLaws BitLaws
PROPERTIES OneReg
CHECK_DEADLOCK FALSE
