SPECIFICATION Spec
CONSTANTS
  Port = 61696
INVARIANTS CatOK Done At
CHECK_DEADLOCK FALSE
