SPECIFICATION Spec
CONSTANTS
  Slack = 0
  MemorySlack = 0
  MaxWorks = 2
  NoLimit = FALSE
  NoRelease = FALSE
  Generate = TRUE
INVARIANT Rested
PROPERTY Emit
CHECK_DEADLOCK FALSE
