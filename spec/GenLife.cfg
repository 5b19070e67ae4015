SPECIFICATION Spec
CONSTANTS
  SharedChunk <- One
  MaxCount = 65536
  MaxOps = 6
INVARIANTS EntriesOK ValsOK
PROPERTIES Emit
VIEW View
CHECK_DEADLOCK FALSE
