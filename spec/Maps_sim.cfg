SPECIFICATION Spec
CONSTANTS
  Kinds = {"hash", "hash2", "linked", "tree", "treerev", "hashtable", "identity", "hashset", "linkedset", "treeset", "treesetrev", "pset"}
  Universes = {4, 10, 40}
  NVals = 3
  MaxLen = 120
  Bulk = 5
  Record = TRUE
  Pick <- PickOne
  PickSeq <- PickSeqOne
CHECK_DEADLOCK FALSE
