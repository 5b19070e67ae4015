SPECIFICATION Spec
CONSTANTS
  SharedChunk <- One
  MaxCount = 65536
  MaxOps = 5
  Count = 2
  Contents = {"A", "B"}
INVARIANTS EntriesOK ValsOK
PROPERTIES Emit
VIEW View
CHECK_DEADLOCK FALSE
