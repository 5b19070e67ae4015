SPECIFICATION Spec
CONSTANTS
  N = 5
  M = 6
  Port = 61696
INVARIANTS CatOK AnswerOK Emit
CHECK_DEADLOCK FALSE
