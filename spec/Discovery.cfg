SPECIFICATION Spec
CONSTANTS
  Disc = {d1, d2, d3}
  Ids = {1, 2, 3}
  Kinds = {"answer", "other"}
  Answer = "answer"
  Tags = {t1}
CONSTRAINT Small
INVARIANTS OwnOnly DistinctIds OneTaker NeverBlocks
PROPERTIES Frozen Returns
CHECK_DEADLOCK FALSE
