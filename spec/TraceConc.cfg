SPECIFICATION Spec
CONSTANTS
  SharedChunk <- Chunk4M
  MaxCount = 65536
INVARIANTS EntriesOK ValsOK Done At1
CHECK_DEADLOCK FALSE
