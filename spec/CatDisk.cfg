SPECIFICATION Spec
CONSTANTS
  Hashes = {"a", "b"}
  Chunks = {"c1", "c2"}
  MaxOps = 6
  IndexFirst = FALSE
  InPlace = FALSE
  NoRollback = FALSE
INVARIANTS Recoverable Agree InPlaceData
CHECK_DEADLOCK FALSE
